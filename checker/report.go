package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation.
type Finding struct {
	Rule string `json:"rule"`
	Key  string `json:"construct"`
	Pos  string `json:"pos"`
	Msg  string `json:"message"`
}

// Ctx collects obligations for one property.
type Ctx struct {
	passes    map[*ssa.Function]bool
	resp      map[*ssa.Function]int
	cachePkgs map[string]bool
	P         *Prog
	E         *Engine
	ID        string
	Thorough  bool
	obl       map[string]bool // rule|key -> ok so far
	finds     map[string]*Finding
	counts    map[string]int
	rules     map[string]string
	samples   map[string][]string
	assume    []string
	fnsSeen   map[*ssa.Function]bool
	steps     int
	undecided []string
}

func newCtx(p *Prog, id string) *Ctx {
	return &Ctx{P: p, E: NewEngine(p), ID: id, obl: map[string]bool{}, finds: map[string]*Finding{}, counts: map[string]int{},
		rules: map[string]string{}, samples: map[string][]string{}, fnsSeen: map[*ssa.Function]bool{}}
}

func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := c.P.SSA.Fset.Position(p)
	rel, err := filepath.Rel(c.P.Root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// Rule describes a rule for the evidence file.
func (c *Ctx) Rule(name, text string) { c.rules[name] = text }

// Ok records a discharged obligation.
func (c *Ctx) Ok(rule, key string) {
	k := rule + "|" + key
	if _, had := c.obl[k]; !had {
		c.obl[k] = true
		if len(c.samples[rule]) < 6 {
			c.samples[rule] = append(c.samples[rule], key)
		}
	}
}

// Bad records a violated obligation.
func (c *Ctx) Bad(rule, key string, pos token.Pos, format string, a ...any) {
	k := rule + "|" + key
	c.obl[k] = false
	if c.finds[k] == nil {
		c.finds[k] = &Finding{rule, key, c.Pos(pos), fmt.Sprintf(format, a...)}
	}
}

func (c *Ctx) Check(ok bool, rule, key string, pos token.Pos, format string, a ...any) bool {
	if ok {
		c.Ok(rule, key)
	} else {
		c.Bad(rule, key, pos, format, a...)
	}
	return ok
}

func (c *Ctx) Count(name string, n int) { c.counts[name] += n }

// Min fails the check when fewer instances of a rule were found than confirmed by hand.
func (c *Ctx) Min(rule string, want int) {
	n := 0
	for k := range c.obl {
		if strings.HasPrefix(k, rule+"|") {
			n++
		}
	}
	c.counts["instances of "+rule] = n
	if n < want {
		c.Bad(rule, "instance-count", token.NoPos, "only %d instances of this rule were found, %d were confirmed by hand: the rule no longer sees the code it is about", n, want)
	}
}

// Run explores a function and accounts for it.
func (c *Ctx) Run(fn *ssa.Function, r *Rule) *Exec {
	if c.Thorough {
		if r.MaxDepth == 0 {
			r.MaxDepth = 10
		}
		r.MaxDepth += 3
		if r.MaxSteps == 0 {
			r.MaxSteps = 1000000
		}
		r.MaxSteps *= 3
	}
	x := c.E.Run(fn, r)
	for f := range x.Entered {
		c.fnsSeen[f] = true
	}
	c.steps += x.Steps
	if os.Getenv("GV_KEYS") != "" && strings.Contains(fn.String(), os.Getenv("GV_KEYS")) {
		for _, k := range x.exitKeys {
			fmt.Fprintln(os.Stderr, k)
		}
	}
	if os.Getenv("GV_STEPS") != "" && x.Steps > 5000 {
		fmt.Fprintln(os.Stderr, "steps", x.Steps, fn, "exits", x.Exits)
		type fc struct {
			f *ssa.Function
			n int
		}
		var l []fc
		for f, n := range x.visits {
			l = append(l, fc{f, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
		for i := 0; i < len(l) && i < 5; i++ {
			fmt.Fprintln(os.Stderr, "     ", l[i].f, l[i].n)
		}
	}
	if x.Overflow {
		// what was seen up to here counts; what was not is reported as undecided, not as a violation
		c.undecided = append(c.undecided, short(fn.String())+" ("+c.Pos(fn.Pos())+")")
	}
	return x
}

type known struct{ prop, rule, key, text string }

// loadKnown parses known_findings.txt: lines
//
//	known: property=C01 rule=<rule> at=<construct> :: text
//	fixed: property=C01 <commit> text
func loadKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		var k known
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		k.text = l[i+4:]
		head := l[:i]
		a := strings.Index(head, " rule=")
		b := strings.Index(head, " at=")
		if a < 0 || b < a {
			continue
		}
		k.prop = strings.TrimPrefix(head[:a], "property=")
		k.rule = head[a+6 : b]
		k.key = head[b+4:]
		out = append(out, k)
	}
	return out
}

// Finish writes the evidence and prints the verdict. It returns the exit code.
func (c *Ctx) Finish(verif, tier string, seed int, start time.Time) int {
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var viol []*Finding
	var keys []string
	for k := range c.finds {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	matched := 0
	for _, k := range keys {
		f := c.finds[k]
		hit := false
		for _, n := range kn {
			if n.prop == c.ID && n.rule == f.Rule && n.key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s] %s\n", c.ID, n.text, f.Rule, f.Key, f.Pos)
				hit = true
				matched++
				break
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	ok := 0
	for _, v := range c.obl {
		if v {
			ok++
		}
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	cov := map[string]any{
		"explanation":            explanations[c.ID],
		"rules":                  c.rules,
		"obligations":            len(c.obl),
		"obligations_discharged": ok,
		"known_findings":         matched,
		"packages_loaded":        len(c.P.Pkgs),
		"functions_in_scope":     len(c.P.Fns),
		"functions_explored":     len(c.fnsSeen),
		"abstract_steps":         c.steps,
		"counts":                 c.counts,
		"sample_obligations":     c.samples,
		"undecided":              c.undecided,
	}
	if tier == "thorough" {
		var all []string
		for k, v := range c.obl {
			s := "ok "
			if !v {
				s = "BAD "
			}
			all = append(all, s+k)
		}
		sort.Strings(all)
		cov["all_obligations"] = all
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": append(c.assume, commonAssumptions...),
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	rp := filepath.Join(evDir, c.ID+".violations.txt")
	os.Remove(rp)
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations; %d functions explored, %d abstract steps, %.1fs\n",
		c.ID, len(c.obl), ok, matched, len(viol), len(c.fnsSeen), c.steps, time.Since(start).Seconds())
	for _, u := range c.undecided {
		fmt.Println("undecided (exploration limit reached):", u)
	}
	if len(viol) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: property %s, rule %s, at %s\n    %s\n    rule: %s\n", f.Pos, c.ID, f.Rule, f.Key, f.Msg, c.rules[f.Rule])
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}

var commonAssumptions = []string{
	"Library behaviour (bbolt, badger, raft, gin, grpc, etcd, os) is taken from its documentation; library bodies are not analysed.",
	"Panics and os.Exit end a path; reflection and unsafe code are opaque.",
	"Interface calls are resolved to the in-repository implementation when there is exactly one, otherwise treated as opaque.",
}

var explanations = map[string]string{}
