package main

// Obligation framework: each obligation compares the value graph extracted from
// the current source with the stated closed form.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Suite     string `json:"suite"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Status    string `json:"status"` // proved | violated | undecided
	Detail    string `json:"detail,omitempty"`
}

type Run struct {
	w      *World
	obls   []*Obl
	funcs  map[string]bool
	suite  string
	blocks int
	loops  int
	calls  int
	folds  int
	debug  bool
	cases  []string // labels of the cases to look at (all if empty)
}

type Case struct {
	r         *Run
	ev        *Eval
	st        *State
	construct string
	where     string
	assumes   []*Term
	setup     func(m *Model, i int)
	shapes    map[string]func(m *Model, as []any) []any
	runs      int
	dead      bool
	narrowed  []string
	keepRt    map[string]bool // cells whose run-time contents are arbitrary
}

func (r *Run) add(rule, construct, where, status, detail string) {
	r.obls = append(r.obls, &Obl{r.suite, rule, construct, where, status, detail})
	if r.debug && status != "proved" {
		fmt.Fprintf(os.Stderr, "[%s] %s %s %s: %s\n", status, r.suite, construct, rule, detail)
	}
}

// find resolves pkg.Func or pkg.Type.Method.
func (r *Run) find(pkg, name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		n := r.w.named(pkg, name[:i])
		if n == nil {
			return nil
		}
		fn, _, _ := r.w.methodOf(types.NewPointer(n), name[i+1:])
		return fn
	}
	return r.w.fn(pkg, name)
}

func (r *Run) with(pkg, name string, body func(c *Case, fn *ssa.Function)) {
	r.withLabel(pkg, name, "", body)
}

func (r *Run) withLabel(pkg, name, label string, body func(c *Case, fn *ssa.Function)) {
	construct := pkg + "." + name
	if label != "" {
		construct += " [" + label + "]"
	}
	fn := r.find(pkg, name)
	if fn == nil {
		r.add("anchor", construct, "", "violated", "the function does not exist any more")
		return
	}
	r.run(construct, r.w.rel(fn), func(c *Case) { body(c, fn) })
}

func (r *Run) run(construct, where string, body func(c *Case)) {
	if o := os.Getenv("GDC_ONLY"); o != "" && r.debug && !strings.Contains(construct, o) {
		return
	}
	layered := strings.HasPrefix(r.suite, "layer") || r.suite == "dense"
	if i := strings.Index(construct, "["); i >= 0 && len(r.cases) > 0 && layered {
		hit := false
		for _, c := range r.cases {
			hit = hit || strings.Contains(construct[i:], c)
		}
		if !hit {
			return
		}
	}
	if o := os.Getenv("GDC_FRESH"); o != "" && r.debug {
		fmt.Sscanf(o, "%d", &freshN)
	}
	switch os.Getenv("GDC_RESET") {
	case "ite":
		clear(iteMemo)
	case "men":
		clear(mentionMemo)
	case "nn":
		clear(nonnegAtom)
	case "fold":
		clear(foldDefs)
	case "fresh":
		freshN = 0
	}
	if intMode {
		construct += " [integer elements]"
	}
	budgetTerms = termCount + 4000000
	ev := NewEval(r.w)
	c := &Case{r: r, ev: ev, st: ev.newState(), construct: construct, where: where, runs: 60}
	defer func() {
		for f := range ev.visited {
			r.funcs[f] = true
		}
		r.blocks += ev.nblocks
		r.loops += ev.nloops
		r.calls += ev.ncalls
		r.folds += len(ev.folds)
		if x := recover(); x != nil {
			if u, ok := x.(undecided); ok {
				r.add("analysable", construct, where, "undecided", u.why)
				return
			}
			if os.Getenv("GDC_PANIC") != "" {
				panic(x)
			}
			r.add("analysable", construct, where, "undecided", fmt.Sprintf("internal: %v", x))
		}
	}()
	c.initGlobals()
	body(c)
	if r.debug && len(ev.folds) > 0 {
		for _, f := range ev.folds {
			fmt.Fprintf(os.Stderr, "  fold in %s: %s\n", construct, f)
		}
	}
}

// initGlobals runs the initialisers of the module's package-level variables, if
// it has any (what writes to them later is the business of the effects suite).
func (c *Case) initGlobals() {
	var ps []string
	for p, pkg := range c.r.w.pkgs {
		for n, m := range pkg.Members {
			if _, ok := m.(*ssa.Global); ok && n != "init$guard" && n != "_" {
				ps = append(ps, p)
				break
			}
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		if f := c.r.w.pkgs[p].Func("init"); f != nil && f.Blocks != nil {
			c.initPackage(p, f)
		}
	}
}

// initPackage: an initialiser outside the modelled part of the language leaves the
// variables it sets unknown, and only the functions that read them undecided.
func (c *Case) initPackage(p string, f *ssa.Function) {
	st, nObs, base := c.st.fork(), len(c.ev.obs), c.ev.base
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		if _, ok := x.(undecided); !ok {
			panic(x)
		}
		c.ev.obs = c.ev.obs[:nObs]
		c.ev.ctxs, c.ev.iter, c.ev.stack, c.ev.base = nil, nil, nil, base
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Name() != "init$guard" {
						c.ev.unknownGlobal[g] = true
					}
				}
			}
		}
	}()
	if _, out := c.ev.callFn(f, nil, nil, st, "init:"+p); out != nil {
		c.st = out
	}
}

func (c *Case) assume(t *Term) {
	t = boolize(t)
	c.ev.base = c.ev.base.assume(t)
	c.assumes = append(c.assumes, t)
}

// call evaluates fn in the current state.
func (c *Case) call(fn *ssa.Function, args ...*Term) Val {
	var vs []Val
	for _, a := range args {
		vs = append(vs, tv(a))
	}
	return c.callV(fn, vs...)
}

func (c *Case) callV(fn *ssa.Function, vs ...Val) Val {
	c.ev.sites["call"]++
	v, out := c.ev.callFn(fn, vs, nil, c.st, fmt.Sprintf("h%d", c.ev.sites["call"]))
	if out == nil {
		c.dead = true
		c.st = c.ev.newState()
		c.st.asm = False
		return Val{t: Undef}
	}
	c.st = out
	return v
}

func (v Val) at(i int) *Term {
	if v.fs == nil {
		if i == 0 {
			return v.t
		}
		return Undef
	}
	return v.fs[i].t
}

func (c *Case) facts() *Facts { return c.ev.facts(c.st) }

func (c *Case) seq(s *Term, et types.Type) *Term { return c.ev.contents(c.st, s, et) }

func (c *Case) mkSetup() func(m *Model, i int) {
	return func(m *Model, i int) {
		m.shape = c.shapes
		if c.setup != nil {
			c.setup(m, i)
		}
	}
}

func (c *Case) eq(rule string, got, want *Term) bool { return c.eqIf(rule, True, got, want) }

// eqIf: under cond, got == want.
func (c *Case) eqIf(rule string, cond, got, want *Term) bool {
	f := c.facts().assume(cond)
	if f.contradictory() {
		if cond == True && c.st.asm == False {
			c.r.add(rule, c.construct, c.where, "violated", "the construct never returns normally")
			return false
		}
		c.r.add(rule, c.construct, c.where, "proved", "vacuous")
		return true
	}
	save := curFacts
	curFacts = f
	ok, wit := tryEqual(f, got, want)
	curFacts = save
	if ok {
		c.r.add(rule, c.construct, c.where, "proved", "")
		if c.r.debug && os.Getenv("GDC_SELF") != "" {
			c.selfTest(rule, cond, got, want)
		}
		return true
	}
	if r := os.Getenv("GDC_TERMS"); r != "" && c.r.debug && strings.Contains(rule, r) {
		fmt.Fprintf(os.Stderr, "  got %s\n  want %s\n  cond %s\n", got, want, cond)
	}
	as := append(append([]*Term{}, c.assumes...), c.st.asm, cond)
	d := ""
	var hints []*Term
	if wit != nil {
		var ss []string
		for _, x := range wit.cond {
			ss = append(ss, x.short())
		}
		hints = wit.cond
		d = fmt.Sprintf(" [differs: %s vs %s under %s]", wit.a.short(), wit.b.short(), strings.Join(ss, " & "))
	}
	ref, why := refute(as, got, want, c.mkSetup(), c.runs, hints...)
	if ref != nil {
		c.r.add(rule, c.construct, c.where, "violated", fmt.Sprintf("source computes %s where %s is required; e.g. with %s%s", ref.a, ref.b, ref.model, d))
		return false
	}
	c.r.add(rule, c.construct, c.where, "undecided", fmt.Sprintf("not provable, no counter-model (%s)%s", why, d))
	return false
}

// selfTest: had the source computed something else, would a counter-model exist?
// A rule for which none is found would report every defect as undecided.
func (c *Case) selfTest(rule string, cond, got, want *Term) {
	switch got.sort {
	case SInt:
		want = Add(want, IntC(1))
	case SNum:
		want = Add(want, NumC(1))
	case SBool:
		want = Not(want)
	default:
		return
	}
	as := append(append([]*Term{}, c.assumes...), c.st.asm, cond)
	if ref, why := refute(as, got, want, c.mkSetup(), c.runs); ref != nil {
		fmt.Fprintf(os.Stderr, "seen %s | %s\n", c.construct, rule)
	} else {
		fmt.Fprintf(os.Stderr, "BLIND %s | %s: %s [%s]\n", c.construct, rule, why, got.short())
	}
}

// tryEqual bounds the proof attempt, so that a counter-model is still looked for.
func tryEqual(f *Facts, got, want *Term) (ok bool, wit *neqWitness) {
	save, end := budgetTerms, budgetEnd
	budgetTerms = min(budgetTerms, termCount+1200000)
	if e := time.Now().Add(60 * time.Second); e.Before(budgetEnd) || budgetEnd.IsZero() {
		budgetEnd = e
	}
	defer func() {
		budgetTerms, budgetEnd = save, end
		if x := recover(); x != nil {
			if _, is := x.(undecided); !is {
				panic(x)
			}
			ok, wit = false, nil
		}
	}()
	return equalUnder(f, got, want)
}

// holds: cond is true under the facts.
func (c *Case) holds(rule string, cond *Term) bool { return c.eqIf(rule, True, boolize(cond), True) }

// noPanic discharges every recorded run-time failure under the assumptions.
func (c *Case) noPanic(rule string, pre *Term) {
	f := c.ev.base.assume(pre)
	n := 0
	bad := 0
	for _, o := range c.ev.obs {
		n++
		x := f.simp(o.cond)
		if x == False || f.refutes(x) {
			continue
		}
		as := append(append([]*Term{}, c.assumes...), pre)
		ref, why := refute(as, x, False, c.mkSetup(), c.runs, x)
		if ref != nil {
			c.r.add(rule, c.construct, o.pos, "violated", fmt.Sprintf("%s at %s when %s; e.g. with %s", o.kind, o.pos, x.short(), ref.model))
		} else {
			c.r.add(rule, c.construct, o.pos, "undecided", fmt.Sprintf("%s at %s when %s (%s)", o.kind, o.pos, x.short(), why))
		}
		bad++
	}
	if bad == 0 {
		c.r.add(rule, c.construct, c.where, "proved", fmt.Sprintf("%d potential failures excluded", n))
	}
}

func (c *Case) expect(rule string, ok bool, detail string) bool {
	if ok {
		c.r.add(rule, c.construct, c.where, "proved", "")
	} else {
		c.r.add(rule, c.construct, c.where, "violated", detail)
	}
	return ok
}

// symbols

func shapeVar(n string) *Term { return Var("shape:"+n, SSeq) }
func uintVar(n string) *Term {
	v := Var(n, SInt)
	nonnegAtom[v] = true
	return v
}
func numVar(n string) *Term { return Var(n, SNum) }

func lam(n *Term, f func(i *Term) *Term) *Term {
	v := Fresh("v", SInt)
	nonnegAtom[v] = true
	return Bind("lam", n, v, f(v))
}
func sum(n *Term, f func(i *Term) *Term) *Term    { return bindF("sum", n, f) }
func exists(n *Term, f func(i *Term) *Term) *Term { return bindF("exists", n, f) }
func forall(n *Term, f func(i *Term) *Term) *Term {
	return Not(bindF("exists", n, func(i *Term) *Term { return Not(f(i)) }))
}
func bindF(op string, n *Term, f func(i *Term) *Term) *Term {
	v := Fresh("v", SInt)
	nonnegAtom[v] = true
	return Bind(op, n, v, f(v))
}

func positiveShape(s *Term) *Term {
	return forall(Len(s), func(k *Term) *Term { return Lt(IntC(0), At(s, k, SInt)) })
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = types.Typ
