package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver CMD [flags]")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	file := fs.String("file", "", "vectors")
	seed := fs.Int64("seed", 1, "seed")
	reps := fs.Int("reps", 4, "concretizations per vector")
	fs.StringVar(&checkID, "id", "", "property")
	dir := fs.String("dir", "", "output directory")
	events := fs.Int("events", 1000, "events to record")
	shards := fs.Int("shards", 8, "log files")
	apis := fs.String("api", "IJP", "interfaces: I functions, J JO, P Parser")
	steps := fs.Int("steps", 6, "steps of a walk")
	pairs := fs.Bool("pairs", false, "every two successive transitions")
	free := fs.Int("free", 1, "times a schedule's calls are made freely")
	fs.Parse(os.Args[2:])
	large = cmd != "record"
	go watchdog()
	switch cmd {
	case "edits":
		replayEdits(*file, *seed, *reps)
	case "texts":
		replayTexts(*file, *seed)
	case "reads":
		replayReads(*file, *seed, *reps)
	case "typed":
		replayScalars(*file, *seed)
	case "walks":
		replayWalks(*file, *seed, *apis, *steps, *pairs)
	case "sizes":
		replaySizes(*file, *seed, *reps, *steps, *apis)
	case "build":
		replayBuild(*file, *seed, *reps)
	case "errors":
		replayErrors(*file, *seed)
	case "schemes":
		replaySchemes(*file, *seed, *reps)
	case "calls":
		replayCalls(*file, *seed, *free)
	case "record":
		record(checkID, *seed, *events, *shards, *dir)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
	finish()
}
