#!/bin/bash
# Nothing is kept from here (each check builds in a scratch directory of its own):
# says early if a tool is missing or a module does not parse.
set -e
cd "$(dirname "$0")"
command -v java go python3 >/dev/null
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp spec/*.tla "$T"
cd "$T"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > out.txt 2>&1 || { cat out.txt; exit 1; }
  if grep -q "Semantic errors\|Could not parse\|Fatal errors" out.txt; then cat out.txt; exit 1; fi
done
echo "specification parses"
