#!/usr/bin/env python3
"""Runs the check of one property:  verify.py ID [--tier quick|thorough] [--seed N]

  1. TLC explores the bounded model of the property exhaustively, evaluates its
     invariants in every state and emits what the specification says (vectors);
  2. the driver, built from /repo's working tree, replays the vectors into the
     real code (specification -> code);
  3. the driver records random sessions of the real code, and TLC validates
     every event of them against Trace.tla (code -> specification).

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: the real
code did something the specification does not allow.  Exit 2: the machinery
itself failed; nothing is said about the property.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JIN_REPO", "/repo")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from plan import PLAN, TITLE  # noqa: E402

CPUS = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def log(msg):
    print("[%6.1fs] %s" % (time.time() - T0, msg), flush=True)


T0 = time.time()


def tlc(args, cwd, env=None, xmx="2g", timeout=600, extra=()):
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-XX:ParallelGCThreads=2", *extra,
           "-cp", TLAJAR + ":" + CMJAR, "tlc2.TLC", *args]
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time: " + " ".join(args))


class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.dir = tempfile.mkdtemp(prefix="jinverif.")
        self.spec = os.path.join(self.dir, "spec")
        shutil.copytree(os.path.join(HERE, "spec"), self.spec)
        self.violations = []   # dicts: what, data
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "models": [], "replays": [], "recordings": []}

    # ------------------------------------------------------------ driver
    def build(self, race=False):
        out = os.path.join(self.dir, "driver-race" if race else "driver")
        if os.path.exists(out):
            return out
        src = os.path.join(self.dir, "src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(HERE, "driver"), src)
            if REPO != "/repo":
                p = os.path.join(src, "go.mod")
                t = open(p).read().replace("=> /repo", "=> " + REPO)
                open(p, "w").write(t)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off")
        env.setdefault("HOME", "/root")
        r = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("the driver does not build against %s:\n%s" % (REPO, r.stdout))
        log("driver%s built" % (" (race detector)" if race else ""))
        return out

    def drive(self, binary, args, timeout=600, env=None):
        e = dict(os.environ, **(env or {}))
        e.setdefault("GOMEMLIMIT", "6GiB")
        e.setdefault("GORACE", "halt_on_error=1")
        try:
            r = subprocess.run([binary] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=timeout, env=e, cwd=self.dir)
        except subprocess.TimeoutExpired:
            raise ToolError("driver ran out of time: %s" % args)
        races = r.stderr.count("WARNING: DATA RACE")
        if races and "github.com/ecoshub/jin." in r.stderr:
            at = r.stderr.index("WARNING: DATA RACE")
            self.violations.append({"what": "data race", "report": r.stderr[at:at + 6000], "found_by": "race detector"})
        elif races:
            raise ToolError("the driver races with itself:\n" + r.stderr[:4000])
        if r.returncode != 0 and not races:
            # the code under test took the process down: not recoverable in Go
            m = re.search(r"(fatal error: stack overflow|goroutine stack exceeds|fatal error: concurrent map[^\n]*|fatal error: all goroutines are asleep)", r.stderr)
            if m and "github.com/ecoshub/jin." in r.stderr:
                at = r.stderr.index("github.com/ecoshub/jin.")
                self.violations.append({"what": "the process died: " + m.group(0), "driver": args,
                                        "report": r.stderr[:600] + "\n...\n" + r.stderr[max(0, at - 200):at + 3000]})
                return None
            raise ToolError("driver failed (%d): %s\n%s" % (r.returncode, args, r.stderr[-3000:]))
        try:
            out = json.loads(r.stdout.strip().split("\n")[-1])
        except Exception:
            if races:
                return None
            raise ToolError("driver wrote no result: %s\n%s\n%s" % (args, r.stdout[-500:], r.stderr[-2000:]))
        for x in out["reports"] or []:
            self.violations.append({"what": x["what"], "call": x["call"], "got": x["got"], "want": x["want"],
                                    "found_by": "replay " + str(args[0])})
        if out["disagreements"]:
            log("driver %s: %d disagreements" % (args[0], out["disagreements"]))
        return out["summary"]

    # ------------------------------------------------------------ models
    def model(self, m):
        """m: module, constants {name: text}, spec, invariants, properties, view, expect_min, timeout"""
        n = len(self.cov["models"])
        cfg = ["SPECIFICATION " + m.get("spec", "MCSpec"), "CONSTANTS"]
        for k, v in m.get("constants", {}).items():
            cfg.append("  %s %s" % (k, v))
        if m.get("invariants"):
            cfg.append("INVARIANTS " + " ".join(m["invariants"]))
        if m.get("properties"):
            cfg.append("PROPERTIES " + " ".join(m["properties"]))
        if m.get("constraint"):
            cfg.append("CONSTRAINT " + m["constraint"])
        if m.get("view"):
            cfg.append("VIEW " + m["view"])
        cfg.append("CHECK_DEADLOCK FALSE")
        name = "m%d" % n
        open(os.path.join(self.spec, name + ".cfg"), "w").write("\n".join(cfg) + "\n")
        out = os.path.join(self.dir, name + ".vectors")
        open(out, "w").close()
        args = ["-workers", str(m.get("workers", CPUS)), "-noGenerateSpecTE", "-metadir", os.path.join(self.dir, name + ".st"),
                "-userFile", out, "-config", name + ".cfg"]
        if m.get("simulate"):
            args += ["-simulate", "num=%d" % m["simulate"], "-depth", str(m["depth"]), "-seed", str(self.seed)]
        args.append(m["module"] + ".tla")
        r = tlc(args, self.spec, xmx=m.get("xmx", "6g"), timeout=m.get("timeout", 700))
        if m.get("must_fail"):
            # a design known to be wrong: a model that accepts it has no teeth
            if "is violated" not in r.stdout:
                raise ToolError("TLC on %s did not reject the wrong design:\n%s" % (m["module"], r.stdout[-2000:]))
            self.cov["models"].append({"module": m["module"], "constants": m.get("constants", {}), "control": "rejected, as it must be"})
            log("TLC %s (control): rejected" % m["module"])
            return out
        if r.returncode != 0 or ("No error has been found" not in r.stdout and not m.get("simulate")):
            raise ToolError("TLC on %s (the specification alone, no code involved):\n%s" % (m["module"], r.stdout[-4000:]))
        # the last line of this form: TLC also writes progress lines of it
        g = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", r.stdout)
        gen, dist = (int(x.replace(",", "")) for x in g[-1]) if g else (0, 0)
        if m.get("simulate"):
            gen = dist = int(re.search(r"number of states generated: ([\d,]+)", r.stdout).group(1).replace(",", ""))
        d = re.search(r"depth of the complete state graph search is (\d+)", r.stdout)
        if dist < m.get("expect_min", 2):
            raise ToolError("model %s explored only %d states:\n%s" % (m["module"], dist, r.stdout[-1500:]))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append({"module": m["module"], "states": dist, "transitions": gen,
                                   "depth": int(d.group(1)) if d else None, "constants": m.get("constants", {}),
                                   "invariants": m.get("invariants", []), "properties": m.get("properties", []),
                                   "exhaustive_within_bounds": not m.get("simulate")})
        shutil.rmtree(os.path.join(self.dir, name + ".st"), ignore_errors=True)
        log("TLC %s: %d states, %d transitions" % (m["module"], dist, gen))
        return out

    def vacuous(self, m, cmd, args, tried):
        """what the vectors were emitted for and the replay never met"""
        emit = re.findall(r'"(\w+)"', m.get("constants", {}).get("Emit", ""))
        need = []
        if "Hit" in emit and self.id not in ("C02", "C09"):
            need.append(" hit")
        if "Miss" in emit:
            need.append(" miss")
        for e in emit:
            if e in ("Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete", "Store"):
                need += [e + " ok", e + " fail", "JO." + e + " ok", "JO." + e + " fail"]
        if "Step" in emit:
            for api in args[args.index("-api") + 1]:
                for e in ("Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete", "Store"):
                    if not (api == "P" and e == "Store"):
                        need.append("%s %s ok" % (api, e))
        return [n for n in need if not any(k == n or (n[0] == " " and k.endswith(n)) for k, v in tried.items() if v)]

    def replay(self, binary, cmd, vectors, args, m):
        s = self.drive(binary, [cmd, "-id", self.id, "-file", vectors, "-seed", self.seed] + args, timeout=800)
        if s is None:
            return
        if not s.get("lines") or not s.get("calls"):
            raise ToolError("replay %s made no calls" % cmd)
        missing = self.vacuous(m, cmd, args, s.get("tried") or {})
        if missing and not self.violations:
            raise ToolError("replay %s never tried %s" % (cmd, missing))
        self.cov["traces_validated_against_impl"] += s.get("traces", s["lines"])
        self.cov["samples"] += (s.pop("samples", None) or [])[:3]
        self.cov["replays"].append(dict(s, cmd=cmd, args=[str(a) for a in args]))
        log("replay %s: %s" % (cmd, {k: v for k, v in s.items() if not isinstance(v, (dict, list))}))

    # ------------------------------------------------------------ traces
    def record(self, binary, events, shards=None, cmd="record", extra=()):
        shards = shards or CPUS
        d = os.path.join(self.dir, "rec%d" % len(self.cov["recordings"]))
        os.makedirs(d)
        s = self.drive(binary, [cmd, "-id", self.id, "-seed", self.seed, "-events", events, "-shards", shards, "-dir", d] + list(extra))
        if s is None:
            return
        files = [os.path.join(d, "t%d.ndjson" % i) for i in range(shards)]
        open(os.path.join(self.spec, "trace.cfg"), "w").write(
            "SPECIFICATION Spec\nVIEW View\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n")
        rejects = canaries = 0
        problems = []
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(self.validate, files))
        accepted = 0
        for f, (out, ok) in zip(files, res):
            lines = open(f).read().split("\n")
            rej = [int(x) for x in re.findall(r'^"REJECT (\d+)"', out, re.M)]
            can = [int(x) for x in re.findall(r'^"CANARY (\d+)"', out, re.M)]
            accepted += len([l for l in lines if l]) - len(rej)
            rejects += len(rej)
            canaries += len(can)
            for n in rej[:3]:
                self.violations.append(self.rejected(lines, n))
            if not ok:
                problems.append((f, out[-3000:]))
            if can:
                problems.append((f, "accepted corrupted event: " + lines[can[0] - 1][:2000]))
        if problems and not self.violations:
            raise ToolError("trace validation: %s" % problems[0][1])
        ops = s.get("ops", {})
        sessions = ops.get("New", 0) + ops.get("NewScheme", 0)
        self.cov["traces_validated_against_impl"] += sessions or s["events"]
        one = open(files[0]).read().split("\n")[:4]
        self.cov["samples"] += [readable(json.loads(x)) for x in one[:2] if x]
        self.cov["recordings"].append({"events": s["events"], "accepted": accepted, "sessions": sessions,
                                       "corrupted_events_rejected": s.get("canaries", 0) - canaries, "events_by_call": ops,
                                       "library_calls": s.get("calls", 0)})
        log("recorded %d events of %d sessions; %d rejected; %d corrupted ones tried" % (s["events"], sessions, rejects, s.get("canaries", 0)))
        shutil.rmtree(d, ignore_errors=True)

    def validate(self, f):
        r = tlc(["-workers", "1", "-noGenerateSpecTE", "-metadir", f + ".st", "-config", "trace.cfg", "Trace.tla"], self.spec, env={"TRACE": f},
                xmx="2g", timeout=800, extra=["-XX:+UseSerialGC", "-XX:-UseParallelGC"])
        ok = r.returncode == 0 and "No error has been found" in r.stdout
        return r.stdout, ok

    def rejected(self, lines, n):
        e = json.loads(lines[n - 1])
        start = n - 1
        while start > 0 and '"o":"New' not in lines[start]:
            start -= 1
        session = [readable(json.loads(x)) for x in lines[start:n] if x and '"z":1' not in x]
        return {"what": "event %s not allowed by Trace.tla" % e.get("o"), "event": readable(e),
                "session": session[-60:], "found_by": "trace validation"}

    # ------------------------------------------------------------ all of it
    def run(self):
        p = PLAN[self.id]
        plan = p[self.tier] if self.tier in p else p["quick"]
        binary = self.build()
        for m in plan.get("models", []):
            vec = self.model(m)
            for cmd, args in m.get("replay", []):
                b = self.build(race=True) if m.get("race") else binary
                self.replay(b, cmd, vec, [str(a) for a in args], m)
            if os.path.exists(vec):
                os.remove(vec)
        for step in plan.get("drive", []):
            b = self.build(race=True) if step.get("race") else binary
            if step.get("record"):
                self.record(b, step["events"], cmd=step["record"], extra=step.get("args", ()))
            else:
                s = self.drive(b, [step["cmd"], "-id", self.id, "-seed", self.seed] + [str(a) for a in step.get("args", [])],
                               env=step.get("env"))
                if s is not None:
                    self.cov["traces_validated_against_impl"] += s.get("traces", 0)
                    self.cov["samples"] += (s.pop("samples", None) or [])[:3]
                    self.cov["replays"].append(dict(s, cmd=step["cmd"]))
                    log("driver %s: %s" % (step["cmd"], {k: v for k, v in s.items() if not isinstance(v, (dict, list))}))
        if plan.get("events"):
            self.record(binary, plan["events"])


def readable(x):
    """byte lists as text"""
    if isinstance(x, dict):
        return {k: (readable(v) if k not in ("c", "n", "z", "e") else v) for k, v in x.items()}
    if isinstance(x, list):
        if x and all(isinstance(y, int) for y in x):
            return "".join(chr(y % 256) for y in x).encode("latin-1").decode("utf-8", "backslashreplace")
        return [readable(y) for y in x]
    return x


def known(pid):
    """findings listed as known: (property, key) -> text"""
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for l in open(f):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true", help="keep the scratch directory")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    c = Check(a.id, tier, a.seed)
    code = 2
    try:
        try:
            c.run()
        except ToolError as e:
            if not c.violations:  # what the code did wrong stands, whatever came after it
                raise
            print("ERROR (of the check, after the code failed it): %s" % str(e)[:2000], flush=True)
        if c.cov["traces_validated_against_impl"] == 0 and not c.violations:
            raise ToolError("nothing was validated")
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": a.id, "tier": tier, "seed": a.seed, "level": "model_checking", "coverage": c.cov,
              "assumptions": ["the specification (spec/*.tla) states the property as meant",
                              "TLC, the Go toolchain and the driver's rendering and logging are right; what the real code answered is judged as it was logged"],
              "wall_s": round(time.time() - T0, 2), "violations": len(c.violations)}
        c.cov["samples"] = c.cov["samples"][:8]
        json.dump(ev, open(os.path.join(EVID, a.id + ".json"), "w"), indent=1, ensure_ascii=True)
        if c.violations:
            path = os.path.join(EVID, "replay-%s.json" % a.id)
            json.dump({"property": a.id, "title": TITLE[a.id], "tier": tier, "seed": a.seed,
                       "violations": c.violations[:40]}, open(path, "w"), indent=1, ensure_ascii=True)
            for v in c.violations[:5]:
                print("  " + json.dumps({k: v[k] for k in v if k not in ("session", "report")})[:1500])
            print("VIOLATION property=%s replay=%s" % (a.id, path), flush=True)
            code = 1
        else:
            log("held: %d model states, %d traces validated against the code" % (c.cov["states"], c.cov["traces_validated_against_impl"]))
            code = 0
    except ToolError as e:
        print("ERROR (of the check, not of the code): %s" % e, flush=True)
    finally:
        if a.keep:
            print("kept " + c.dir)
        else:
            shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
