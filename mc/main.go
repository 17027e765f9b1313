package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id")
	verif := flag.String("verif", "/verif", "framework directory")
	evidence := flag.String("evidence", "", "evidence directory")
	tier := flag.String("tier", "", "quick or thorough (default: VERIF_TIER)")
	budget := flag.Int("budget", 0, "seconds")
	replay := flag.String("replay", "", "re-execute a replay file")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		for _, id := range sortedKeys(properties) {
			fmt.Println(id, properties[id].Title)
		}
		return
	}
	t := *tier
	if t == "" {
		t = os.Getenv("VERIF_TIER")
	}
	if t != "thorough" {
		t = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	b := *budget
	if b == 0 {
		b = 150
		if t == "thorough" {
			b = 780
		}
	}
	if *replay != "" {
		bz, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var f struct {
			Property string
			Tier     string
			Finding  Finding
		}
		if err := json.Unmarshal(bz, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		replayOnly = &f.Finding
		*prop = f.Property
		t = f.Tier
	}
	os.Exit(runProperty(*prop, t, seed, *verif, *evidence, time.Duration(b)*time.Second))
}

// replayOnly restricts a run to one recorded path.
var replayOnly *Finding
