package main

// The check command: decides one property by running its suites, each in a
// process of its own (the term tables are per process), and writes the evidence.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type suiteResult struct {
	Suite  string   `json:"suite"`
	Fatal  string   `json:"fatal,omitempty"` // the program does not type-check
	Obls   []*Obl   `json:"obls"`
	Funcs  []string `json:"funcs"`
	Blocks int      `json:"blocks"`
	Loops  int      `json:"loops"`
	Calls  int      `json:"calls"`
	Folds  int      `json:"folds"`
	Terms  int      `json:"terms"`
	WallS  float64  `json:"wall_s"`
	Lost   string   `json:"lost,omitempty"` // the suite gave no answer
}

func runSuite(repo, name, out string) {
	t0 := time.Now()
	res := &suiteResult{Suite: name}
	w, err := loadWorld(repo)
	if err != nil {
		res.Fatal = err.Error()
	} else if f := suites[name]; f == nil {
		res.Lost = "no such suite"
	} else {
		r := &Run{w: w, funcs: map[string]bool{}, suite: name}
		if c := os.Getenv("GDC_CASES"); c != "" {
			r.cases = strings.Split(c, "|")
		}
		budgetEnd = t0.Add(suiteBudget())
		f(r)
		res.Obls, res.Funcs = r.obls, sortedKeys(r.funcs)
		res.Blocks, res.Loops, res.Calls, res.Folds = r.blocks, r.loops, r.calls, r.folds
	}
	res.Terms = termCount
	res.WallS = time.Since(t0).Seconds()
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func suiteBudget() time.Duration {
	if s := os.Getenv("GDC_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	return 300 * time.Second
}

type known struct {
	property, key, what string
}

// loadKnown reads the committed list of findings: "known: property=<id> key=<construct>|<rule> :: <what fails>".
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		p, rest, ok := strings.Cut(l, " ")
		if !ok || !strings.HasPrefix(p, "property=") {
			continue
		}
		rest = strings.TrimPrefix(strings.TrimSpace(rest), "key=")
		key, what, _ := strings.Cut(rest, " :: ")
		ks = append(ks, known{strings.TrimPrefix(p, "property="), strings.TrimSpace(key), strings.TrimSpace(what)})
	}
	return ks
}

func (o *Obl) key() string { return o.Construct + "|" + o.Rule }

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "source tree")
	verif := fs.String("verif", ".", "framework directory")
	id := fs.String("property", "", "property id")
	fs.Parse(args)
	t0 := time.Now()
	p := propertyByID(*id)
	if p == nil {
		fmt.Println("no such property:", *id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rs := runSuites(*repo, p.suites, tier, p.cases)

	var obls []*Obl
	cnt := map[string]int{}
	bySuite := map[string]map[string]int{}
	funcs := map[string]bool{}
	var lost, samples []string
	tot := suiteResult{}
	fatal := ""
	for _, r := range rs {
		if r.Fatal != "" {
			fatal = r.Fatal
		}
		if r.Lost != "" {
			lost = append(lost, r.Suite+": "+r.Lost)
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		tot.Blocks += r.Blocks
		tot.Loops += r.Loops
		tot.Calls += r.Calls
		tot.Folds += r.Folds
		tot.Terms += r.Terms
		bySuite[r.Suite] = map[string]int{}
		for _, o := range r.Obls {
			if p.want != nil && !p.want(o) {
				continue
			}
			obls = append(obls, o)
			cnt[o.Status]++
			bySuite[r.Suite][o.Status]++
		}
	}
	ks := loadKnown(filepath.Join(*verif, "known-findings.txt"))
	var viol, und []*Obl
	printed := map[string]bool{}
	nknown := 0
	for _, o := range obls {
		switch o.Status {
		case "violated":
			hit := false
			for _, k := range ks {
				if k.property == p.id && k.key == o.key() {
					hit = true
					if !printed[k.key] {
						printed[k.key] = true
						nknown++
						fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.id, o.Construct, k.what)
					}
				}
			}
			if !hit {
				viol = append(viol, o)
			}
		case "undecided":
			und = append(und, o)
		default:
			if len(samples) < 12 && (len(obls) < 12 || len(samples) == 0 || hash32(o.key())%7 == uint32(seed)%7) {
				samples = append(samples, fmt.Sprintf("%s: %s (%s) %s", o.Construct, o.Rule, o.Where, o.Status))
			}
		}
	}
	if fatal != "" {
		viol = append(viol, &Obl{Suite: "load", Rule: "the program type-checks", Construct: *repo, Status: "violated", Detail: fatal})
	}
	// a rule that matches nothing would pass for ever
	if fatal == "" && len(lost) == 0 && len(obls) < p.floor {
		und = append(und, &Obl{Suite: "floor", Rule: "instance count", Construct: *repo, Status: "undecided",
			Detail: fmt.Sprintf("%d obligations, %d were confirmed by hand", len(obls), p.floor)})
	}

	cov := map[string]any{
		"explanation":         p.how,
		"rule":                p.rule,
		"obligations":         len(obls),
		"discharged":          cnt["proved"],
		"violated":            cnt["violated"],
		"undecided":           cnt["undecided"],
		"known_findings":      nknown,
		"suites":              bySuite,
		"functions_analysed":  len(funcs),
		"functions":           sortedKeys(funcs),
		"basic_blocks":        tot.Blocks,
		"loops_closed":        tot.Loops,
		"call_sites_followed": tot.Calls,
		"recurrences_open":    tot.Folds,
		"terms":               tot.Terms,
		"checker_cmd":         fmt.Sprintf("bash check.sh %s", p.id),
		"trusted_base":        trustedBase,
		"samples":             samples,
	}
	if len(lost) > 0 {
		cov["suites_without_answer"] = lost
	}
	if len(und) > 0 {
		var us []string
		for i, o := range und {
			if i == 40 {
				break
			}
			us = append(us, fmt.Sprintf("%s: %s: %s", o.Construct, o.Rule, cut(o.Detail, 300)))
		}
		cov["undecided_obligations"] = us
	}
	ev := map[string]any{
		"property": p.id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
		"assumptions": p.assumptions(), "wall_s": round2(time.Since(t0).Seconds()), "violations": len(viol),
	}
	dir := filepath.Join(*verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, p.id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 3
	}
	fmt.Printf("%s %s: %d obligations, %d proved, %d undecided, %d violated (%d known); %d functions, %d loops closed, %.1f s\n",
		p.id, p.title, len(obls), cnt["proved"], cnt["undecided"], cnt["violated"], nknown, len(funcs), tot.Loops, time.Since(t0).Seconds())
	for _, l := range lost {
		fmt.Println("no answer from", l)
	}
	for i, o := range und {
		if i == 10 {
			fmt.Println("  ...")
			break
		}
		fmt.Printf("  undecided: %s [%s] %s\n", o.Construct, o.Rule, cut(o.Detail, 160))
	}
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join(dir, p.id+".violation.txt")
	var sb bytes.Buffer
	for _, o := range viol {
		fmt.Fprintf(&sb, "property: %s\nconstruct: %s\nwhere: %s\nrule: %s\nsuite: %s\n%s\n\n", p.id, o.Construct, o.Where, o.Rule, o.Suite, o.Detail)
	}
	os.WriteFile(rp, sb.Bytes(), 0o644)
	for i, o := range viol {
		if i == 10 {
			break
		}
		fmt.Printf("  violated: %s (%s) [%s] %s\n", o.Construct, o.Where, o.Rule, cut(o.Detail, 400))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, rp)
	return 1
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func round2(x float64) float64 { return float64(int(x*100)) / 100 }

func hash32(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func runSuites(repo string, names []string, tier string, cases []string) []*suiteResult {
	exe, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "godeepcheck-run")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	defer os.RemoveAll(tmp)
	names = append([]string{}, names...)
	sort.SliceStable(names, func(i, j int) bool { return suiteCost[names[i]] > suiteCost[names[j]] })
	res := make([]*suiteResult, len(names))
	budget := suiteBudget() + 60*time.Second
	sem := make(chan struct{}, max(2, min(runtime.NumCPU()/2, 5)))
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			out := filepath.Join(tmp, n+".json")
			ctx, cancel := context.WithTimeout(context.Background(), budget)
			defer cancel()
			cmd := exec.CommandContext(ctx, exe, "run-suite", repo, n, out)
			var eb bytes.Buffer
			cmd.Stderr = &eb
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=5GiB", "GOMAXPROCS=4", "GDC_CASES="+strings.Join(cases, "|"))
			err := cmd.Run()
			r := &suiteResult{Suite: n}
			if b, e := os.ReadFile(out); e == nil {
				json.Unmarshal(b, r)
			} else {
				r.Lost = fmt.Sprintf("%v %s", err, cut(eb.String(), 200))
			}
			res[i] = r
		}()
	}
	wg.Wait()
	return res
}

var suiteCost = map[string]int{"graph-dot": 9, "eager-dot": 8, "graph-rearrange": 7, "eager-rearrange": 6,
	"layer-conv": 12, "layer-deconv": 11, "layer-maxpool": 10, "layer-upsampling": 5, "layer-sub": 6, "dense": 4, "layer-pass": 5}
