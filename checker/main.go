package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

type checkFn struct {
	id  string
	run func(c *Ctx)
}

var registry = map[string]func(c *Ctx){}

func register(id, explain string, f func(c *Ctx)) {
	registry[id] = f
	explanations[id] = explain
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	flag.Parse()
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for i := 1; i < 200; i++ {
			for _, f := range []string{"C%02d", "C%03d"} {
				id := fmt.Sprintf(f, i)
				if registry[id] != nil {
					ids = append(ids, id)
				}
			}
		}
	}
	p, err := Load(*repo)
	if err != nil {
		for _, id := range ids {
			fmt.Printf("the workspace could not be analysed: %v\n", err)
			fail(*verif, id, tier, seed, fmt.Sprint(err))
		}
		os.Exit(1)
	}
	code := 0
	for _, id := range ids {
		if len(ids) > 1 {
			start = time.Now()
		}
		if runOne(p, id, *verif, tier, seed, start) != 0 {
			code = 1
		}
	}
	os.Exit(code)
}

func fail(verif, id, tier string, seed int, why string) {
	os.MkdirAll(verif+"/evidence", 0o755)
	rp := verif + "/evidence/" + id + ".violations.txt"
	os.WriteFile(rp, []byte(why+"\n"), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
}

func runOne(p *Prog, id, verif, tier string, seed int, start time.Time) (code int) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("analysis of %s failed: %v\n%s", id, r, debug.Stack())
			fail(verif, id, tier, seed, fmt.Sprint(r))
			code = 1
		}
	}()
	f := registry[id]
	if f == nil {
		fmt.Println("no such property", id)
		return 1
	}
	c := newCtx(p, id)
	c.Thorough = tier == "thorough"
	f(c)
	return c.Finish(verif, tier, seed, start)
}
