// mc runs one check of /verif: mc check ID | worker ID ... | replay ID FILE | list
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"verifmc/checks"
	"verifmc/eng"
)

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	if os.Args[1] == "list" {
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
		return
	}
	ch := checks.All[os.Args[2]]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "no such check:", os.Args[2])
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		tier := fs.String("tier", "quick", "")
		shard := fs.Int("shard", 0, "")
		shards := fs.Int("shards", 1, "")
		only := fs.Int64("only", -1, "")
		hb := fs.String("hb", "", "")
		states := fs.String("states", "", "")
		budget := fs.Duration("budget", time.Hour, "")
		known := fs.String("known", "", "")
		verbose := fs.Bool("v", false, "")
		fs.Parse(os.Args[3:])
		eng.RunWorker(ch, *tier, *shard, *shards, *only, *hb, *states, *budget, strings.Split(*known, ","), *verbose)
	case "check", "replay":
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		budget := 240 * time.Second
		if ch.ID == "C20" {
			budget = 420 * time.Second
		}
		if tier == "thorough" {
			budget = 700 * time.Second
		}
		if b := os.Getenv("MC_BUDGET"); b != "" {
			if d, err := time.ParseDuration(b); err == nil {
				budget = d
			}
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		dir := os.Getenv("MC_VERIF")
		if dir == "" {
			dir = "/verif"
		}
		o := eng.Options{Tier: tier, Seed: seed, VerifDir: dir, Home: os.Getenv("MC_HOME"), Budget: budget}
		if os.Args[1] == "replay" {
			os.Exit(eng.Replay(ch, o, os.Args[3]))
		}
		os.Exit(eng.RunCheck(ch, o))
	}
}
