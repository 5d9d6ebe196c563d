// Command mc decides the properties of /verif/properties.jsonl by exhaustive
// exploration of bounded spaces of executions of the code in /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"verifmc/checks"
	"verifmc/engine"
)

func main() {
	engine.Hooked = checks.Hooked
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	property := fs.String("property", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	verif := fs.String("verif", "/verif", "directory of MANIFEST.json")
	shard := fs.Int("shard", 0, "")
	claims := fs.String("claims", "", "")
	of := fs.Int("of", 1, "")
	deadline := fs.Int64("deadline", 0, "unix ms")
	out := fs.String("out", "", "")
	budget := fs.Duration("budget", 0, "time limit")
	fs.Parse(os.Args[2:])

	find := func(id string) engine.Check {
		c, ok := checks.All[id]
		if !ok {
			fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
			os.Exit(2)
		}
		return c()
	}

	switch os.Args[1] {
	case "list":
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
	case "check":
		b := *budget
		if b == 0 {
			b = 400 * time.Second
			if *tier == "thorough" {
				b = 700 * time.Second
			}
			if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
				if n, err := strconv.Atoi(s); err == nil {
					b = time.Duration(n) * time.Second
				}
			}
		}
		os.Exit(engine.Parent(find(*property), *tier, *verif, b))
	case "worker":
		debug.SetGCPercent(400)
		debug.SetMaxStack(256 << 20)
		c := find(*property)
		err := engine.Worker(c, engine.Options{Tier: *tier, Claims: *claims, Shard: *shard, Of: *of,
			Deadline: time.UnixMilli(*deadline), Out: *out,
			Known: engine.ReadKnown(engine.KnownPath(*verif), *property)})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	case "replay":
		data, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r engine.ReplayFile
		if err := json.Unmarshal(data, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		debug.SetMaxStack(256 << 20)
		o := engine.Replay(find(r.Property), r.Finding, r.Tier == "thorough")
		for _, l := range o.Log {
			fmt.Println("  ", l)
		}
		if o.Finding != nil {
			fmt.Println(o.Finding.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
			os.Exit(1)
		}
		fmt.Println("the recorded execution satisfies the property")
	case "cold":
		var r checks.ColdRequest
		if err := json.Unmarshal([]byte(fs.Arg(0)), &r); err != nil {
			os.Exit(2)
		}
		out, _ := json.Marshal(checks.Cold(r.List, r.Plan, r.Coarse))
		os.Stdout.Write(out)
	default:
		os.Exit(2)
	}
}
