package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vmon run PROP [RACE_EXE] | worker ... | replay FILE [RACE_EXE] | list | needsrace PROP")
	}
	arg := func(i int) string {
		if len(os.Args) > i {
			return os.Args[i]
		}
		return ""
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runMain(arg(2), arg(3), arg(4), arg(5)))
	case "worker":
		workerMain(os.Args[2:])
	case "replay":
		os.Exit(replayMain(arg(2), arg(3), arg(4), arg(5)))
	case "dev":
		devMain(arg(2), arg(3))
	case "perturb":
		perturbMain(arg(2), arg(3))
	case "dump":
		dumpMain(arg(2), arg(3), arg(4))
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	case "needsrace":
		if p := props[arg(2)]; p != nil && p.RaceQuick > 0 {
			fmt.Println("yes")
		}
	case "needsdelay":
		if p := props[arg(2)]; p != nil && p.DelayQuick > 0 {
			fmt.Println("yes")
		}
	case "needsnarrow":
		if p := props[arg(2)]; p != nil && p.NarrowQuick > 0 {
			fmt.Println("yes")
		}
	default:
		fatal("unknown command %q", os.Args[1])
	}
}
