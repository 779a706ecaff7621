package main

// Gated value-graph construction over go/ssa. Every SSA value is mapped to its
// term; joins become gates, memory is a map from address class to a term over
// the class' index formals, loops are closed by recurrence solving (loop.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	t  *Term
	fs []Val
}

func tv(t *Term) Val { return Val{t: t} }

type State struct {
	cond *Term
	asm  *Term
	ov   map[string]*Term
}

func (s *State) fork() *State {
	n := &State{cond: s.cond, asm: s.asm, ov: make(map[string]*Term, len(s.ov)+4)}
	for k, v := range s.ov {
		n.ov[k] = v
	}
	return n
}

type Class struct {
	name  string
	typ   types.Type
	sorts []Sort
	fm    []*Term
}

type Oblig struct {
	kind string
	pos  string
	cond *Term
	fn   string
}

type undecided struct{ why string }

type frame struct {
	fn   *ssa.Function
	env  map[ssa.Value]Val
	path string
	info *fnInfo
}

type loopCtx struct {
	id    string
	key   string
	entry *State
	W     map[string]bool
	reads map[string]bool
}

type Eval struct {
	w       *World
	cls     map[string]*Class
	sites   map[string]int
	ctxs    []*loopCtx
	iter    []*Term
	base    *Facts
	obs     []Oblig
	notes   []string
	stack   []*ssa.Function
	runtime int
	wcache  map[string]map[string]bool
	allocIn map[string][]*Term // iterations an allocation site is in
	chase   bool               // loops that follow pointers are taken iteration by iteration
	peel    map[string]bool    // loops whose first iteration is taken on its own
	fnTab   map[string]*ssa.Function
	boxTab  map[string]types.Type
	// a conversion to single precision keeps the value (suites that are about it)
	singleExact bool
	// an object whose method answers for an opaque one
	stand func(recv *Term, method string) (*Term, types.Type)
	// package-level variables whose initialiser could not be evaluated
	unknownGlobal map[*ssa.Global]bool

	opaque   func(ev *Eval, st *State, recv *Term, m *types.Func, args []Val, site string) (Val, bool)
	intr     map[string]func(ev *Eval, st *State, args []Val, site string) (Val, bool)
	visited  map[string]bool // functions analysed
	ncalls   int
	nblocks  int
	nloops   int
	nfold    int
	budget   int
	factMemo map[factKey]*Facts
	restarts int
	frozen   map[string]bool
	pushes   int
	folds    []string
	infos    map[*ssa.Function]*fnInfo
	initial  map[string]*Term
	dbg      bool
}

type factKey struct {
	b     *Facts
	c, a  *Term
	geN   int
	bcond *Term
	noexN int
}

func NewEval(w *World) *Eval {
	ev := &Eval{w: w, cls: map[string]*Class{}, sites: map[string]int{}, base: NewFacts(),
		wcache: map[string]map[string]bool{}, peel: map[string]bool{}, allocIn: map[string][]*Term{}, fnTab: map[string]*ssa.Function{}, boxTab: map[string]types.Type{},
		intr: map[string]func(*Eval, *State, []Val, string) (Val, bool){}, visited: map[string]bool{},
		factMemo: map[factKey]*Facts{}, frozen: map[string]bool{}, infos: map[*ssa.Function]*fnInfo{},
		budget: 400000, initial: map[string]*Term{}, unknownGlobal: map[*ssa.Global]bool{}}
	installIntrinsics(ev)
	return ev
}

func (ev *Eval) newState() *State { return &State{cond: True, asm: True, ov: map[string]*Term{}} }

func (ev *Eval) fail(f string, a ...any) { panic(undecided{fmt.Sprintf(f, a...)}) }

func (ev *Eval) facts(st *State) *Facts {
	if st.cond == True && st.asm == True {
		return ev.base
	}
	k := factKey{ev.base, st.cond, st.asm, len(ev.base.ge), ev.base.cond, len(ev.base.noex)}
	if f, ok := ev.factMemo[k]; ok {
		return f
	}
	f := ev.base.assume(st.cond).assume(st.asm)
	ev.factMemo[k] = f
	return f
}

func (ev *Eval) posOf(p token.Pos) string {
	q := ev.w.prog.Fset.Position(p)
	r, err := filepath.Rel(ev.w.repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// ---------------------------------------------------------------- types

func sortOf(t types.Type) Sort {
	switch u := types.Unalias(t).(type) {
	case *types.TypeParam:
		return SNum
	case *types.Named:
		return sortOf(u.Underlying())
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SNum
		}
	}
	return SOther
}

func isUnsigned(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isStruct(t types.Type) *types.Struct {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (ev *Eval) zero(t types.Type) Val {
	if s := isStruct(t); s != nil {
		v := Val{fs: make([]Val, s.NumFields())}
		for i := range v.fs {
			v.fs[i] = ev.zero(s.Field(i).Type())
		}
		return v
	}
	switch sortOf(t) {
	case SBool:
		return tv(False)
	case SInt:
		return tv(IntC(0))
	case SNum:
		return tv(NumC(0))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return tv(Str(""))
	}
	return tv(Nil)
}

// ---------------------------------------------------------------- memory

func formal(i int, s Sort) *Term {
	v := Var(fmt.Sprintf("$%d%s", i, []string{"o", "b", "i", "n", "s"}[s]), s)
	if s == SInt {
		nonnegAtom[v] = true
	}
	return v
}

func (ev *Eval) mkClass(name string, typ types.Type, args []*Term) *Class {
	c, ok := ev.cls[name]
	if !ok {
		c = &Class{name: name, typ: typ}
		for i, a := range args {
			s := a.sort
			c.sorts = append(c.sorts, s)
			c.fm = append(c.fm, formal(i+1, s))
		}
		ev.cls[name] = c
	}
	return c
}

// Ptr is the address term of class(args).
func (ev *Eval) Ptr(class string, typ types.Type, args ...*Term) *Term {
	ev.mkClass(class, typ, args)
	return App("&"+class, SOther, args...)
}

func addrOf(p *Term) (class string, args []*Term, ok bool) {
	switch {
	case p == Nil || p == Undef || p == Err:
		return "", nil, false
	case p.kind == KApp && strings.HasPrefix(p.aux, "&"):
		return p.aux[1:], p.args, true
	case p.kind == KApp:
		return "*" + p.aux, p.args, true
	case p.kind == KConst || p.kind == KVar:
		return "*" + p.aux, nil, true
	}
	return "", nil, false
}

// noAddr is what a pointer that is no address leads to: nothing when it is
// nil, undefined or a failure; otherwise it is one the engine cannot follow.
func (ev *Eval) noAddr(p *Term) *Term {
	if p != Nil && p != Undef && p != Err && p.kind == KBind {
		ev.fail("a pointer chosen by a %s", p.aux)
	}
	return Undef
}

func leafType(t types.Type) bool {
	return isStruct(t) == nil
}

func (ev *Eval) fieldAddr(st *State, p *Term, name string, ft types.Type, where string) *Term {
	ev.nilCheck(st, p, where)
	return lift1(p, func(p *Term) *Term {
		if r := ev.overSeq(p, SOther, func(p *Term) *Term { return ev.fieldAddr(st, p, name, ft, where) }); r != nil {
			return r
		}
		c, args, ok := addrOf(p)
		if !ok {
			return ev.noAddr(p)
		}
		return ev.Ptr(c+"."+name, ft, args...)
	})
}

// overSeq: the element of a structured sequence of addresses under g.
func (ev *Eval) overSeq(p *Term, es Sort, g func(p *Term) *Term) *Term {
	if p.kind != KApp || p.aux != "at" || len(p.args) != 2 || p.args[0].kind != KBind || p.args[0].aux != "for" {
		return nil
	}
	S := mapSeq(p.args[0], func(v, n *Term) func() {
		save := ev.base
		ev.base = ev.base.clone()
		ev.base.addGe(v)
		if isArith(n) {
			ev.base.addGe(Sub(Sub(n, IntC(1)), v))
		}
		return func() { ev.base = save }
	}, g)
	if S == nil {
		return nil
	}
	return At(S, p.args[1], es)
}

func (ev *Eval) nilCheck(st *State, p *Term, where string) {
	bad := lift1(p, func(l *Term) *Term {
		if l == Nil || l == Undef {
			return True
		}
		return False
	})
	if bad != False {
		ev.oblige(st, "nil dereference", where, bad)
		ev.assumeIn(st, Not(bad))
	}
}

func (ev *Eval) assumeIn(st *State, c *Term) {
	if c == True {
		return
	}
	st.asm = And(st.asm, c)
}

// oblige records a possible run-time failure unless it is excluded by the facts.
func (ev *Eval) oblige(st *State, kind, where string, bad *Term) {
	f := ev.facts(st)
	c := f.simp(And(st.cond, boolize(bad)))
	if c == False {
		return
	}
	c = f.simp(Restrict(boolize(bad), And(st.cond, st.asm)))
	if c == False {
		return
	}
	ev.obs = append(ev.obs, Oblig{kind: kind, pos: where, cond: And(st.cond, c), fn: ""})
}

func (ev *Eval) heapKey(class string) string {
	if ev.runtime > 0 && strings.HasSuffix(class, ".Value") {
		return "R!" + class
	}
	return class
}

func (ev *Eval) defaultBody(key string) *Term {
	if b, ok := ev.initial[key]; ok {
		return b
	}
	name := strings.TrimPrefix(key, "R!")
	c := ev.cls[name]
	if c == nil {
		return Undef
	}
	if strings.HasPrefix(key, "R!") {
		return rawApp("rt0:"+name, SNum, c.fm...)
	}
	if strings.HasPrefix(name, "*") || strings.HasPrefix(name, "el") {
		s := sortOf(c.typ)
		if s == SBool {
			return asBDD(rawApp("h0:"+name, SBool, c.fm...))
		}
		t := rawApp("h0:"+name, s, c.fm...)
		if isUnsigned(c.typ) {
			nonnegAtom[t] = true
		}
		return t
	}
	return ev.zero(c.typ).t
}

func (ev *Eval) xAtom(ctx *loopCtx, key string) *Term {
	if key == "EV" {
		return Var("X"+ctx.id+":EV", SSeq)
	}
	c := ev.cls[strings.TrimPrefix(key, "R!")]
	s := sortOf(c.typ)
	t := rawApp("X"+ctx.id+":"+key, s, c.fm...)
	if s == SBool {
		return asBDD(t)
	}
	if isUnsigned(c.typ) {
		nonnegAtom[t] = true
	}
	return t
}

// lookup returns the body of an address class in a state.
func (ev *Eval) lookup(st *State, key string, note bool) *Term {
	return ev.lookupAt(st, key, len(ev.ctxs), note)
}

func (ev *Eval) lookupAt(st *State, key string, lvl int, note bool) *Term {
	if b, ok := st.ov[key]; ok {
		return b
	}
	if lvl == 0 {
		if key == "EV" {
			return Lit()
		}
		return ev.defaultBody(key)
	}
	ctx := ev.ctxs[lvl-1]
	if ctx.W[key] {
		x := ev.xAtom(ctx, key)
		if root, _, ok := strings.Cut(key, "."); ok && lvl-1 < len(ev.iter) {
			if at := ev.allocIn[root]; lvl-1 < len(at) && at[lvl-1] == ev.iter[lvl-1] {
				// cells allocated in the current iteration are fresh
				c := ev.cls[key]
				if z := ev.zero(c.typ); z.t != nil {
					now := True
					for j := 0; j < lvl; j++ {
						now = And(now, Eq(c.fm[j], ev.iter[j]))
					}
					return Ite(now, z.t, x)
				}
			}
		}
		return x
	}
	if note {
		ctx.reads[key] = true
	}
	return ev.lookupAt(ctx.entry, key, lvl-1, note)
}

type restartLoop struct{ ctx *loopCtx }

func (ev *Eval) noteWrite(key string) {
	for _, ctx := range ev.ctxs {
		if ctx.W[key] {
			continue
		}
		if ctx.reads[key] {
			for _, c := range ev.ctxs {
				c.W[key] = true
				ev.cacheW(c, key)
			}
			panic(restartLoop{ctx})
		}
		ctx.W[key] = true
		ev.cacheW(ctx, key)
	}
}

func (ev *Eval) cacheW(c *loopCtx, key string) {
	m := ev.wcache[c.key]
	if m == nil {
		m = map[string]bool{}
		ev.wcache[c.key] = m
	}
	m[key] = true
}

func (ev *Eval) setBody(st *State, key string, body *Term) {
	ev.noteWrite(key)
	st.ov[key] = body
}

func (ev *Eval) loadLeaf(st *State, p *Term, typ types.Type) *Term {
	f := ev.facts(st)
	r := lift1(p, func(p *Term) *Term {
		if r := ev.overSeq(p, sortOf(typ), func(p *Term) *Term { return ev.loadLeaf(st, p, typ) }); r != nil {
			return r
		}
		c, args, ok := addrOf(p)
		if !ok {
			return ev.noAddr(p)
		}
		if p.kind != KApp || p.aux[0] != '&' {
			ev.mkClass(c, typ, args)
		}
		return ev.readClass(st, ev.heapKey(c), args, f)
	})
	return f.simp(r)
}

func (ev *Eval) readClass(st *State, key string, args []*Term, f *Facts) *Term {
	body := ev.lookup(st, key, true)
	c := ev.cls[strings.TrimPrefix(key, "R!")]
	if len(args) == 0 {
		return body
	}
	if c == nil {
		ev.fail("read of the unknown class %s(%s)", key, args[0].short())
	}
	m := map[*Term]*Term{}
	for i, fm := range c.fm {
		m[fm] = args[i]
	}
	return f.simp(Subst(body, m))
}

func (ev *Eval) load(st *State, p *Term, typ types.Type, where string) Val {
	ev.nilCheck(st, p, where)
	return ev.load0(st, p, typ)
}

func (ev *Eval) load0(st *State, p *Term, typ types.Type) Val {
	if s := isStruct(typ); s != nil {
		v := Val{fs: make([]Val, s.NumFields())}
		for i := range v.fs {
			fld := s.Field(i)
			fp := lift1(p, func(p *Term) *Term {
				c, args, ok := addrOf(p)
				if !ok {
					return ev.noAddr(p)
				}
				return ev.Ptr(c+"."+fld.Name(), fld.Type(), args...)
			})
			v.fs[i] = ev.load0(st, fp, fld.Type())
		}
		return v
	}
	if a, ok := typ.Underlying().(*types.Array); ok {
		_ = a
		ev.fail("array value load")
	}
	return tv(ev.loadLeaf(st, p, typ))
}

func leafConds(t *Term) map[*Term]*Term {
	out := map[*Term]*Term{}
	for _, l := range leavesOf(t) {
		l := l
		out[l] = lift1(t, func(x *Term) *Term {
			if x == l {
				return True
			}
			return False
		})
	}
	return out
}

func (ev *Eval) store(st *State, p *Term, v Val, typ types.Type, where string) {
	ev.nilCheck(st, p, where)
	ev.store0(st, p, v, typ)
}

func (ev *Eval) store0(st *State, p *Term, v Val, typ types.Type) {
	if s := isStruct(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			fld := s.Field(i)
			fp := lift1(p, func(p *Term) *Term {
				c, args, ok := addrOf(p)
				if !ok {
					return ev.noAddr(p)
				}
				return ev.Ptr(c+"."+fld.Name(), fld.Type(), args...)
			})
			ev.store0(st, fp, v.fs[i], fld.Type())
		}
		return
	}
	f := ev.facts(st)
	p = f.simp(p)
	lc := leafConds(p)
	var ls []*Term
	for l := range lc {
		ls = append(ls, l)
	}
	sortTerms(ls)
	for _, l := range ls {
		if l.kind == KApp && (l.aux == "at" || strings.HasPrefix(l.aux, "fold:")) {
			ev.fail("a store through a pointer that is not analysable")
		}
		c, args, ok := addrOf(l)
		if !ok {
			continue
		}
		ev.mkClass(c, typ, args)
		key := ev.heapKey(c)
		ev.storeClass(st, key, args, v.t, lc[l])
	}
}

func (ev *Eval) storeClass(st *State, key string, args []*Term, v, gate *Term) {
	ev.noteWrite(key)
	body := ev.lookup(st, key, false)
	c := ev.cls[strings.TrimPrefix(key, "R!")]
	g := gate
	for i, fm := range c.fm {
		g = And(g, ev.cellEq(st, fm, args[i]))
	}
	if ev.runtime > 0 && !strings.HasPrefix(key, "R!") {
		if !strings.HasPrefix(key, "A") {
			ev.fail("an operation writes non-value memory %s while calculating", key)
		}
	}
	if ev.frozen[key] && ev.runtime == 0 && !strings.HasSuffix(key, ".Value") {
		ev.notes = append(ev.notes, "memory "+key+" is written after an operation captured it")
	}
	st.ov[key] = Ite(g, v, body)
}

// cellEq is fm = arg; a row-major position with coordinates in range is compared
// digit by digit, so that the coordinates can be solved for.
func (ev *Eval) cellEq(st *State, fm, arg *Term) *Term {
	if arg.kind == KApp && arg.aux == "ravel" && isLit(arg.args[0]) && isLit(arg.args[1]) && len(arg.args[0].args) == len(arg.args[1].args) {
		f := ev.facts(st)
		S := arg.args[0]
		g := True
		u := Unravel(S, fm)
		for j, x := range arg.args[1].args {
			if !isArith(x) || !f.prove(x) || !f.prove(Sub(Sub(S.args[j], IntC(1)), x)) {
				return Eq(fm, arg)
			}
			g = And(g, Eq(x, At(u, IntC(int64(j)), SInt)))
		}
		return g
	}
	return Eq(fm, arg)
}

// elemAddr is the address of element k of the array object at base.
func (ev *Eval) elemAddr(base, k *Term, et types.Type) *Term {
	return lift1(base, func(b *Term) *Term {
		c, args, ok := addrOf(b)
		if !ok {
			return ev.noAddr(b)
		}
		return ev.Ptr(c+"[]", et, append(append([]*Term{}, args...), k)...)
	})
}

// ---------------------------------------------------------------- slices

func Slc(base, off, n, cap *Term) *Term { return App("slc", SOther, base, off, n, cap) }
func PSeq(s *Term) *Term {
	return lift1(s, func(s *Term) *Term { return rawApp("pseq", SOther, s) })
}

func slen(s *Term) *Term {
	return lift1(s, func(s *Term) *Term {
		switch {
		case s == Nil:
			return IntC(0)
		case s == Undef:
			return Undef
		case s.kind == KApp && s.aux == "slc":
			return s.args[2]
		case s.kind == KApp && s.aux == "pseq":
			return Len(s.args[0])
		}
		return appNN("len", s)
	})
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

// elem loads element k of a slice value.
func (ev *Eval) elem(st *State, s, k *Term, et types.Type) *Term {
	f := ev.facts(st)
	return f.simp(lift2(s, k, func(s, k *Term) *Term {
		switch {
		case s == Nil || s == Undef:
			return Undef
		case s.kind == KApp && s.aux == "slc":
			return ev.loadLeaf(st, ev.elemAddr(s.args[0], Add(s.args[1], k), et), et)
		case s.kind == KApp && s.aux == "pseq":
			return f.simp(At(s.args[0], k, sortOf(et)))
		}
		t := App("at", sortOf(et), s, k)
		if isUnsigned(et) {
			markNN(t)
		}
		return t
	}))
}

// contents is the sequence of a slice value at this state.
func (ev *Eval) contents(st *State, s *Term, et types.Type) *Term {
	f := ev.facts(st)
	s = f.simp(s)
	return lift1(s, func(s *Term) *Term {
		switch {
		case s == Nil:
			return Lit()
		case s == Undef:
			return Undef
		case s.kind == KApp && s.aux == "pseq":
			return s.args[0]
		}
		n := slen(s)
		if c, ok := isConst(n); ok && c.IsInt() && c.Sign() >= 0 && c.Num().Int64() <= 8 {
			var xs []*Term
			for i := int64(0); i < c.Num().Int64(); i++ {
				xs = append(xs, ev.elem(st, s, IntC(i), et))
			}
			return liftN(xs, func(xs []*Term) *Term { return Lit(xs...) })
		}
		v := Fresh("c", SInt)
		nonnegAtom[v] = true
		save := ev.base
		ev.base = ev.base.clone()
		ev.base.addGe(v)
		ev.base.addGe(Sub(Sub(n, IntC(1)), v))
		e := ev.elem(st, s, v, et)
		ev.base = save
		return Bind("lam", n, v, e)
	})
}

// ---------------------------------------------------------------- functions

func (ev *Eval) siteID(path string, in ssa.Instruction, k string) string {
	key := fmt.Sprintf("%s|%p|%s", path, in, k)
	id, ok := ev.sites[key]
	if !ok {
		id = len(ev.sites) + 1
		ev.sites[key] = id
	}
	return fmt.Sprintf("%d", id)
}

func (ev *Eval) callFn(fn *ssa.Function, args, fvs []Val, st *State, path string) (Val, *State) {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Blocks == nil {
		ev.fail("function %s has no body", fn)
	}
	n := 0
	for _, s := range ev.stack {
		if s == fn {
			n++
		}
	}
	if n > 2 || len(ev.stack) > 40 {
		ev.fail("recursion through %s", fn)
	}
	ev.ncalls++
	ev.visited[fn.String()] = true
	ev.stack = append(ev.stack, fn)
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, path: path, info: ev.info(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = fvs[i]
	}
	// evaluate relative to the caller's condition
	save := ev.base
	ev.base = ev.facts(st)
	in := st.fork()
	in.cond, in.asm = True, True
	res := ev.region(fr, nil, fn.Blocks[0], []edge{{to: fn.Blocks[0], st: in}})
	ev.base = save
	if len(res.rets) == 0 {
		return Val{}, nil
	}
	var es []edge
	var vs []Val
	for _, r := range res.rets {
		es = append(es, edge{st: r.st})
		vs = append(vs, r.val)
	}
	out := ev.merge(es)
	v := vs[0]
	if len(vs) > 1 {
		v = ev.mergeVals(es, vs)
	}
	// back to the caller's condition
	rc := out.cond
	out.cond = st.cond
	out.asm = And(st.asm, out.asm, rc)
	return v, out
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	env      map[ssa.Value]Val
}
type retEdge struct {
	st  *State
	val Val
}
type regionResult struct {
	back  []edge
	exits []edge
	rets  []retEdge
}

// merge joins disjoint edge states.
func (ev *Eval) merge(es []edge) *State {
	if len(es) == 1 {
		return es[0].st.fork()
	}
	out := es[len(es)-1].st.fork()
	for i := len(es) - 2; i >= 0; i-- {
		s := es[i].st
		keys := map[string]bool{}
		for k := range s.ov {
			keys[k] = true
		}
		for k := range out.ov {
			keys[k] = true
		}
		for k := range keys {
			a, b := s.ov[k], out.ov[k]
			if a == b {
				continue
			}
			if a == nil {
				a = ev.lookup(s, k, false)
			}
			if b == nil {
				b = ev.lookup(out, k, false)
			}
			out.ov[k] = Ite(s.cond, a, b)
		}
		out.asm = Ite(s.cond, s.asm, out.asm)
		out.cond = Or(s.cond, out.cond)
	}
	return out
}

func (ev *Eval) mergeVals(es []edge, vs []Val) Val {
	r := vs[len(vs)-1]
	c := es[len(es)-1].st.cond
	for i := len(vs) - 2; i >= 0; i-- {
		r = iteVal(es[i].st.cond, vs[i], r)
		c = Or(c, es[i].st.cond)
	}
	return restrictVal(r, c)
}

func restrictVal(v Val, c *Term) Val {
	if v.t != nil {
		return tv(Restrict(v.t, c))
	}
	out := Val{fs: make([]Val, len(v.fs))}
	for i := range v.fs {
		out.fs[i] = restrictVal(v.fs[i], c)
	}
	return out
}

func iteVal(c *Term, a, b Val) Val {
	if a.t != nil && b.t != nil {
		return tv(Ite(c, a.t, b.t))
	}
	if a.t == nil && b.t == nil && len(a.fs) == len(b.fs) {
		out := Val{fs: make([]Val, len(a.fs))}
		for i := range a.fs {
			out.fs[i] = iteVal(c, a.fs[i], b.fs[i])
		}
		return out
	}
	if a.t == Undef {
		return b
	}
	if b.t == Undef {
		return a
	}
	panic(undecided{"join of different value shapes"})
}

func mapVal(v Val, f func(*Term) *Term) Val {
	if v.t != nil {
		return tv(f(v.t))
	}
	out := Val{fs: make([]Val, len(v.fs))}
	for i := range v.fs {
		out.fs[i] = mapVal(v.fs[i], f)
	}
	return out
}

// region evaluates the blocks of a loop body (or of the whole function).
func (ev *Eval) region(fr *frame, L *loop, start *ssa.BasicBlock, in []edge) regionResult {
	var res regionResult
	pend := map[*ssa.BasicBlock][]edge{start: in}
	order := fr.info.order(L)
	for _, b := range order {
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		delete(pend, b)
		out := func(e edge) {
			if e.st.cond == False {
				return
			}
			if L != nil && e.to == L.head {
				res.back = append(res.back, e)
				return
			}
			if L != nil && !L.blocks[e.to] {
				res.exits = append(res.exits, e)
				return
			}
			pend[e.to] = append(pend[e.to], e)
		}
		if M := fr.info.inner(L, b); M != nil {
			r := ev.evalLoop(fr, M, es)
			for _, e := range r.exits {
				out(e)
			}
			res.rets = append(res.rets, r.rets...)
			continue
		}
		st := ev.merge(es)
		if !(L != nil && b == L.head) {
			ev.phis(fr, b, es, st)
		}
		ev.block(fr, b, st, out, &res)
	}
	return res
}

func (ev *Eval) phis(fr *frame, b *ssa.BasicBlock, es []edge, st *State) {
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var pvs []pv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for _, e := range es {
			vs = append(vs, ev.edgeVal(fr, p, b, e))
		}
		v := vs[0]
		if len(vs) > 1 {
			v = ev.mergeVals(es, vs)
		}
		if v.t != nil {
			v = tv(ev.facts(st).simp(v.t))
		}
		pvs = append(pvs, pv{p, v})
	}
	for _, x := range pvs {
		fr.env[x.p] = x.v
	}
}

func (ev *Eval) edgeVal(fr *frame, p *ssa.Phi, b *ssa.BasicBlock, e edge) Val {
	for i, pr := range b.Preds {
		if pr == e.from {
			x := p.Edges[i]
			if e.env != nil {
				if v, ok := e.env[x]; ok {
					return v
				}
			}
			return ev.val(fr, x)
		}
	}
	panic(undecided{"phi edge"})
}

func (ev *Eval) block(fr *frame, b *ssa.BasicBlock, st *State, out func(edge), res *regionResult) {
	ev.nblocks++
	ev.budget--
	if ev.budget < 0 {
		ev.fail("analysis budget exhausted in %s", fr.fn)
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := ev.val(fr, in.Cond).t
			f := ev.facts(st)
			c = f.simp(boolize(c))
			t, e := st, st.fork()
			t = st.fork()
			t.cond = And(st.cond, c)
			e.cond = And(st.cond, Not(c))
			if c != False && t.cond != False {
				out(edge{from: b, to: b.Succs[0], st: t})
			}
			if c != True && e.cond != False {
				out(edge{from: b, to: b.Succs[1], st: e})
			}
			return
		case *ssa.Jump:
			out(edge{from: b, to: b.Succs[0], st: st})
			return
		case *ssa.Return:
			var v Val
			switch len(in.Results) {
			case 0:
				v = tv(Nil)
			case 1:
				v = ev.val(fr, in.Results[0])
			default:
				for _, r := range in.Results {
					v.fs = append(v.fs, ev.val(fr, r))
				}
			}
			res.rets = append(res.rets, retEdge{st, v})
			return
		case *ssa.Panic:
			ev.oblige(st, "explicit panic", ev.posOf(in.Pos()), True)
			return
		default:
			if !ev.instr(fr, in, st) {
				return // does not return
			}
		}
	}
}

func (ev *Eval) val(fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return ev.constVal(v)
	case *ssa.Function:
		return tv(ev.fnTerm(v))
	case *ssa.Builtin:
		return tv(Const("builtin:"+v.Name(), SOther))
	case *ssa.Global:
		if ev.unknownGlobal[v] {
			ev.fail("the initial value of %s is not modelled", v.Name())
		}
		elem := v.Type().Underlying().(*types.Pointer).Elem()
		if isErrorT(elem) && (v.Pkg == nil || v.Pkg.Func("init") == nil || len(v.Pkg.Func("init").Blocks) == 0) {
			ev.initial["G:"+v.String()] = Err // such as io.EOF
		}
		return tv(ev.Ptr("G:"+v.String(), elem))
	}
	x, ok := fr.env[v]
	if !ok {
		ev.fail("value %s of %s not available", v.Name(), fr.fn)
	}
	return x
}

func isErrorT(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// sameError: whether two errors are the same one is open unless one is none.
func (ev *Eval) sameError(x, y *Term, where string) *Term {
	return lift1(x, func(a *Term) *Term {
		return lift1(y, func(b *Term) *Term {
			if a == Err && b == Err {
				return asBDD(rawApp("sameErr:"+where, SBool, ev.iter...))
			}
			return ev.eqTerms(a, b)
		})
	})
}

func (ev *Eval) fnTerm(f *ssa.Function, bind ...*Term) *Term {
	n := "fn:" + f.String()
	ev.fnTab[n] = f
	if len(bind) == 0 {
		return rawApp(n, SOther)
	}
	return App(n, SOther, bind...)
}

func (ev *Eval) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return ev.zero(t)
	}
	switch sortOf(t) {
	case SBool:
		if constant.BoolVal(c.Value) {
			return tv(True)
		}
		return tv(False)
	case SInt:
		if i, ok := constant.Val(constant.ToInt(c.Value)).(int64); ok {
			return tv(IntC(i))
		}
		r, _ := new(big.Rat).SetString(c.Value.ExactString())
		if r != nil {
			return tv(RatC(r, SInt))
		}
	case SNum:
		r, ok := new(big.Rat).SetString(c.Value.ExactString())
		if ok && !r.IsInt() {
			// the decimal that was written, not its binary rounding
			if x, _ := r.Float64(); x != 0 {
				if d, ok := new(big.Rat).SetString(strconv.FormatFloat(x, 'g', -1, 64)); ok {
					r = d
				}
			}
		}
		if ok {
			if len(r.Num().String())+len(r.Denom().String()) > 60 {
				return tv(App("const:"+constant.ToFloat(c.Value).String(), SNum))
			}
			return tv(RatC(r, SNum))
		}
		return tv(App("const:"+c.Value.String(), SNum))
	}
	if c.Value.Kind() == constant.String {
		return tv(Str(constant.StringVal(c.Value)))
	}
	return tv(Const("c:"+c.Value.ExactString(), SOther))
}

func (ev *Eval) instr(fr *frame, in ssa.Instruction, st *State) bool {
	curFacts = ev.base
	set := func(v ssa.Value, x Val) bool { fr.env[v] = x; return true }
	where := ev.posOf(in.Pos())
	switch in := in.(type) {
	case *ssa.Defer:
		if g := in.Call.StaticCallee(); g != nil && (g.Blocks == nil || g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), ev.w.mod)) {
			return true // runs outside the library, after its results are fixed
		}
		ev.fail("unsupported construct %T at %s", in, where)
	case *ssa.DebugRef, *ssa.RunDefers:
		return true
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		cl := "A" + ev.siteID(fr.path, in, "")
		ev.allocIn[cl] = append([]*Term{}, ev.iter...)
		return set(in, tv(ev.Ptr(cl, et, ev.iter...)))
	case *ssa.FieldAddr:
		s := structOf(in.X.Type())
		f := s.Field(in.Field)
		return set(in, tv(ev.fieldAddr(st, ev.val(fr, in.X).t, f.Name(), f.Type(), where)))
	case *ssa.Field:
		return set(in, ev.val(fr, in.X).fs[in.Field])
	case *ssa.IndexAddr:
		x, k := ev.val(fr, in.X).t, ev.val(fr, in.Index).t
		et := in.Type().Underlying().(*types.Pointer).Elem()
		f := ev.facts(st)
		x, k = f.simp(x), f.simp(k)
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			n := IntC(pt.Elem().Underlying().(*types.Array).Len())
			ev.bounds(st, k, n, where)
			return set(in, tv(ev.elemAddr(x, k, et)))
		}
		n := slen(x)
		ev.bounds(st, k, n, where)
		a := lift2(x, k, func(x, k *Term) *Term {
			switch {
			case x.kind == KApp && x.aux == "slc":
				return ev.elemAddr(x.args[0], Add(x.args[1], k), et)
			case x.kind == KApp && x.aux == "pseq":
				return rawApp("pel", SOther, x.args[0], k)
			case x == Nil || x == Undef:
				return Undef
			}
			return App("&*el:"+"slice", SOther, x, k)
		})
		return set(in, tv(a))
	case *ssa.UnOp:
		x := ev.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			et := in.Type()
			if x.t != nil && hasLeafAux(x.t, "pel") {
				f := ev.facts(st)
				r := lift1(x.t, func(p *Term) *Term {
					if p.kind == KApp && p.aux == "pel" {
						return f.simp(At(p.args[0], p.args[1], sortOf(et)))
					}
					return ev.loadLeaf(st, p, et)
				})
				return set(in, tv(f.simp(r)))
			}
			return set(in, ev.load(st, x.t, et, where))
		case token.SUB:
			return set(in, tv(Neg(x.t)))
		case token.NOT:
			return set(in, tv(Not(x.t)))
		}
		ev.fail("unary %s at %s", in.Op, where)
	case *ssa.Store:
		p := ev.val(fr, in.Addr).t
		if hasLeafAux(p, "pel") {
			ev.fail("write to an element of an appended sequence at %s", where)
		}
		et := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		ev.store(st, p, ev.val(fr, in.Val), et, where)
		return true
	case *ssa.BinOp:
		x, y := ev.val(fr, in.X).t, ev.val(fr, in.Y).t
		if x == nil || y == nil {
			ev.fail("comparison of composite values at %s", where)
		}
		return set(in, tv(ev.binop(st, in, x, y, where)))
	case *ssa.Call:
		v, nst, ok := ev.call(fr, in, st)
		if !ok {
			return false
		}
		*st = *nst
		fr.env[in] = v
		return true
	case *ssa.MakeInterface:
		x := ev.val(fr, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			return set(in, x)
		}
		return set(in, tv(ev.box(x, in.X.Type())))
	case *ssa.ChangeInterface:
		return set(in, ev.val(fr, in.X))
	case *ssa.ChangeType:
		return set(in, ev.val(fr, in.X))
	case *ssa.Convert:
		return set(in, tv(ev.convert(st, ev.val(fr, in.X).t, in.X.Type(), in.Type())))
	case *ssa.MultiConvert:
		return set(in, tv(ev.convert(st, ev.val(fr, in.X).t, in.X.Type(), in.Type())))
	case *ssa.Extract:
		t := ev.val(fr, in.Tuple)
		if t.fs == nil {
			ev.fail("extract of non tuple at %s", where)
		}
		return set(in, t.fs[in.Index])
	case *ssa.MakeSlice:
		cl := "A" + ev.siteID(fr.path, in, "")
		base := ev.Ptr(cl, in.Type(), ev.iter...)
		f := ev.facts(st)
		n := f.simp(ev.val(fr, in.Len).t)
		cp := f.simp(ev.val(fr, in.Cap).t)
		ev.oblige(st, "makeslice: len out of range", where, Or(Lt(n, IntC(0)), isWrap(n)))
		return set(in, tv(Slc(base, IntC(0), n, cp)))
	case *ssa.Slice:
		return set(in, tv(ev.slice(fr, st, in, where)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			v := ev.val(fr, b)
			if v.t == nil {
				bs = append(bs, ev.box(v, b.Type()))
				continue
			}
			bs = append(bs, v.t)
		}
		return set(in, tv(ev.fnTerm(in.Fn.(*ssa.Function), bs...)))
	case *ssa.TypeAssert:
		return set(in, ev.typeAssert(st, in, ev.val(fr, in.X).t, where))
	case *ssa.Index:
		x := ev.val(fr, in.X).t
		return set(in, tv(App("index", sortOf(in.Type()), x, ev.val(fr, in.Index).t)))
	}
	ev.fail("unsupported construct %T at %s", in, where)
	return false
}

func hasLeafAux(t *Term, aux string) bool {
	for _, l := range leavesOf(t) {
		if l.kind == KApp && l.aux == aux {
			return true
		}
	}
	return false
}

func isWrap(t *Term) *Term {
	return lift1(t, func(l *Term) *Term {
		at := map[*Term]bool{}
		if isArith(l) {
			polyAtoms(l, at)
		}
		for a := range at {
			if a.kind == KApp && a.aux == "wrap" {
				return True
			}
		}
		return False
	})
}

func (ev *Eval) bounds(st *State, k, n *Term, where string) {
	in := And(Le(IntC(0), k), Lt(k, n))
	f := ev.facts(st)
	bad := f.simp(Not(in))
	if bad == False {
		return
	}
	ev.oblige(st, "index out of range", where, bad)
	ev.assumeIn(st, in)
}

func (ev *Eval) slice(fr *frame, st *State, in *ssa.Slice, where string) *Term {
	x := ev.val(fr, in.X).t
	f := ev.facts(st)
	x = f.simp(x)
	var lo, hi *Term
	lo = IntC(0)
	if in.Low != nil {
		lo = f.simp(ev.val(fr, in.Low).t)
	}
	if in.High != nil {
		hi = f.simp(ev.val(fr, in.High).t)
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n := IntC(pt.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		return Slc(x, lo, Sub(hi, lo), Sub(n, lo))
	}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return App("substr", SOther, x, lo, Nil)
	}
	capOf := lift1(x, func(x *Term) *Term {
		switch {
		case x.kind == KApp && x.aux == "slc":
			return x.args[3]
		case x.kind == KApp && x.aux == "pseq":
			return Len(x.args[0])
		case x == Nil:
			return IntC(0)
		}
		return slen(x)
	})
	if hi == nil {
		hi = slen(x)
	}
	bad := Not(And(Le(IntC(0), lo), Le(lo, hi), Le(hi, capOf)))
	if f.simp(bad) != False {
		ev.oblige(st, "slice bounds out of range", where, bad)
		ev.assumeIn(st, Not(bad))
	}
	r := liftN([]*Term{x, lo, hi}, func(a []*Term) *Term {
		x, lo, hi := a[0], a[1], a[2]
		switch {
		case x.kind == KApp && x.aux == "slc":
			return Slc(x.args[0], Add(x.args[1], lo), Sub(hi, lo), Sub(x.args[3], lo))
		case x.kind == KApp && x.aux == "pseq":
			return PSeq(SubSeq(x.args[0], lo, Sub(hi, lo), SOther))
		case x == Nil:
			return Nil
		case x == Undef || lo == Undef || hi == Undef:
			return Undef
		}
		ev.fail("part of an opaque slice at %s", where)
		return Undef
	})
	return r
}

// narrow: a conversion to a type of n bits that need not hold the number.
func (ev *Eval) narrow(st *State, x *Term, to types.Type, n int, signed bool) *Term {
	lo, hi := int64(0), int64(1)<<uint(n)-1
	if signed {
		lo, hi = -(int64(1) << uint(n-1)), int64(1)<<uint(n-1)-1
	}
	in := And(Le(IntC(lo), x), Le(x, IntC(hi)))
	f := ev.facts(st)
	t := App("cast:"+to.Underlying().String(), SInt, x)
	if !signed {
		markNN(t)
	}
	return f.simp(Ite(in, x, t))
}

func (ev *Eval) convert(st *State, x *Term, from, to types.Type) *Term {
	sf, stt := sortOf(from), sortOf(to)
	switch {
	case sf == SInt && stt == SInt:
		if nt, sgn := bitWidth(to); nt > 0 && nt < 64 {
			if nf, fs := bitWidth(from); nf > nt || nf == nt && fs != sgn || fs && !sgn {
				return ev.narrow(st, x, to, nt, sgn)
			}
		}
		if isUnsigned(to) && !isUnsigned(from) {
			f := ev.facts(st)
			return f.simp(Ite(Le(IntC(0), x), x, App("wrap", SInt, x)))
		}
		return x
	case sf == SInt && stt == SNum:
		return ToNum(x)
	case sf == SNum && stt == SNum:
		if isTypeParam(to) && !isTypeParam(from) {
			return ToElem(x)
		}
		if isSingle(to) && !isSingle(from) && !ev.singleExact {
			return lift1(x, func(x *Term) *Term {
				if _, ok := isConst(x); ok || x == Undef {
					return x
				}
				return App("f32", SNum, x)
			})
		}
		return x
	case sf == SNum && stt == SInt:
		f := ev.facts(st)
		x = f.simp(x)
		if q := lift1(x, func(x *Term) *Term { return quotient(f, x) }); !hasUndefLeaf(q) {
			return f.simp(q)
		}
		t := App("trunc", SInt, x)
		if isUnsigned(to) {
			markNN(t)
		}
		return t
	}
	return App("conv:"+to.String(), stt, x)
}

// quotient: a non-negative ratio of integers truncates to their integer quotient.
func quotient(f *Facts, x *Term) *Term {
	if x == Undef || !isArith(x) {
		return Undef
	}
	exp := map[*Term]int{}
	for _, m := range polyOf(x) {
		for _, p := range m.ps {
			if p.a.sort != SInt {
				return Undef
			}
			if -p.e > exp[p.a] {
				exp[p.a] = -p.e
			}
		}
	}
	d := IntC(1)
	for _, m := range polyOf(x) { // in the order of the terms
		for _, p := range m.ps {
			for ; exp[p.a] > 0; exp[p.a]-- {
				d = Mul(d, p.a)
			}
		}
	}
	n := asIntPoly(Mul(x, ToNum(d)))
	if n == nil || !f.prove(n) || !f.prove(Sub(d, IntC(1))) {
		return Undef
	}
	if isInt(d, 1) {
		return n
	}
	return IDiv(n, d)
}

func hasUndefLeaf(t *Term) bool {
	for _, l := range leavesOf(t) {
		if l == Undef {
			return true
		}
	}
	return false
}

func (ev *Eval) box(x Val, t types.Type) *Term {
	n := "box:" + types.TypeString(t, func(p *types.Package) string { return p.Name() })
	ev.boxTab[n] = t
	var ts []*Term
	var rec func(Val)
	rec = func(v Val) {
		if v.t != nil {
			ts = append(ts, v.t)
			return
		}
		for _, f := range v.fs {
			rec(f)
		}
	}
	rec(x)
	return App(n, SOther, ts...)
}

func (ev *Eval) unbox(t *Term) (Val, types.Type, bool) {
	typ, ok := ev.boxTab[t.aux]
	if !ok {
		return Val{}, nil, false
	}
	i := 0
	var rec func(t types.Type) Val
	rec = func(tt types.Type) Val {
		if s := isStruct(tt); s != nil {
			v := Val{fs: make([]Val, s.NumFields())}
			for j := range v.fs {
				v.fs[j] = rec(s.Field(j).Type())
			}
			return v
		}
		x := t.args[i]
		i++
		return tv(x)
	}
	return rec(typ), typ, true
}

func (ev *Eval) typeAssert(st *State, in *ssa.TypeAssert, x *Term, where string) Val {
	f := ev.facts(st)
	x = f.simp(x)
	match := lift1(x, func(l *Term) *Term {
		if l == Nil {
			return False
		}
		dt := ev.dynType(l)
		if dt == nil && types.IsInterface(in.AssertedType) && l.kind == KConst && strings.HasPrefix(l.aux, "obj:") {
			return True
		}
		if dt == nil {
			return App("istype:"+in.AssertedType.String(), SBool, l)
		}
		if types.IsInterface(in.AssertedType) {
			return True
		}
		if n1, n2 := namedOf(dt), namedOf(in.AssertedType); n1 != nil && n2 != nil && n1.Obj() == n2.Obj() {
			return True
		}
		return False
	})
	val := x
	v := tv(val)
	if s := isStruct(in.AssertedType); s != nil {
		ev.fail("type assertion to a struct at %s", where)
	}
	if in.CommaOk {
		return Val{fs: []Val{iteVal(match, v, ev.zero(in.AssertedType)), tv(match)}}
	}
	ev.oblige(st, "failed type assertion", where, Not(match))
	return v
}

func (ev *Eval) dynType(l *Term) types.Type {
	if l.kind == KApp && strings.HasPrefix(l.aux, "&") {
		if c := ev.cls[l.aux[1:]]; c != nil {
			return types.NewPointer(c.typ)
		}
	}
	if l.kind == KApp {
		if t, ok := ev.boxTab[l.aux]; ok {
			return t
		}
	}
	return nil
}

func (ev *Eval) binop(st *State, in *ssa.BinOp, x, y *Term, where string) *Term {
	f := ev.facts(st)
	s := sortOf(in.X.Type())
	x, y = f.simp(x), f.simp(y)
	switch in.Op {
	case token.ADD:
		if s == SOther {
			return App("strcat", SOther, x, y)
		}
		return Add(x, y)
	case token.SUB:
		r := Sub(x, y)
		if s == SInt && isUnsigned(in.X.Type()) {
			return f.simp(lift2(x, y, func(x, y *Term) *Term {
				if x == Undef || y == Undef {
					return Undef
				}
				return Ite(Le(y, x), Sub(x, y), App("wrap", SInt, Sub(x, y)))
			}))
		}
		return r
	case token.MUL:
		return Mul(x, y)
	case token.QUO:
		if s == SInt {
			ev.oblige(st, "integer division by zero", where, Eq(y, IntC(0)))
			ev.assumeIn(st, Not(Eq(y, IntC(0))))
			return f.simp(IDiv(x, y))
		}
		if isTypeParam(in.X.Type()) {
			return TQuo(x, y)
		}
		return Quo(x, y)
	case token.REM:
		if s == SInt {
			ev.oblige(st, "integer division by zero", where, Eq(y, IntC(0)))
			ev.assumeIn(st, Not(Eq(y, IntC(0))))
			return f.simp(IMod(x, y))
		}
	case token.EQL, token.NEQ:
		var e *Term
		if s == SBool {
			e = Ite(x, y, Not(y))
		} else if isErrorT(in.X.Type()) && !isNilConst(in.X) && !isNilConst(in.Y) {
			e = ev.sameError(x, y, where)
		} else {
			e = ev.eqTerms(x, y)
		}
		if in.Op == token.NEQ {
			e = Not(e)
		}
		return f.simp(e)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, b := x, y
		op := in.Op
		if op == token.GTR {
			a, b, op = y, x, token.LSS
		} else if op == token.GEQ {
			a, b, op = y, x, token.LEQ
		}
		if s == SInt {
			if op == token.LSS {
				return f.simp(Lt(a, b))
			}
			if isUnsigned(in.X.Type()) && isInt(a, 0) {
				return True
			}
			return f.simp(Le(a, b))
		}
		if s == SNum {
			if op == token.LSS {
				return f.simp(NLt(a, b))
			}
			return f.simp(NLe(a, b))
		}
	case token.SHL:
		if c, ok := isConst(y); ok && c.IsInt() && c.Num().Int64() < 40 && c.Sign() >= 0 {
			return Mul(x, IntC(1<<uint(c.Num().Int64())))
		}
	case token.SHR:
		if c, ok := isConst(y); ok && c.IsInt() && c.Num().Int64() < 40 && c.Sign() >= 0 {
			return IDiv(x, IntC(1<<uint(c.Num().Int64())))
		}
	}
	t := App("binop:"+in.Op.String(), sortOf(in.Type()), x, y)
	if isUnsigned(in.Type()) {
		markNN(t)
	}
	return t
}

func (ev *Eval) eqTerms(x, y *Term) *Term {
	return lift2(x, y, func(a, b *Term) *Term {
		if (a == Nil || b == Nil) && a != b {
			o := a
			if a == Nil {
				o = b
			}
			switch {
			case o == Err, o == Undef:
				return False
			case o.kind == KVar && strings.HasPrefix(o.aux, "F") && strings.Contains(o.aux, ":"):
				return ptrEq(a, b) // a loop variable that is not closed
			case o.kind == KConst, o.kind == KVar:
				return False
			case o.kind == KApp:
				if strings.HasPrefix(o.aux, "&") || strings.HasPrefix(o.aux, "slc") || strings.HasPrefix(o.aux, "pseq") ||
					strings.HasPrefix(o.aux, "fn:") || strings.HasPrefix(o.aux, "box:") || strings.HasPrefix(o.aux, "obj:") {
					return False
				}
			}
			return asBDD(rawApp("isnil", SBool, o))
		}
		return Eq(a, b)
	})
}

// ---------------------------------------------------------------- calls

func calleeName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Signature.Recv() != nil {
		n := namedOf(f.Signature.Recv().Type())
		if n != nil {
			p := ""
			if n.Obj().Pkg() != nil {
				p = n.Obj().Pkg().Path()
			}
			return p + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path() + "." + f.Name()
	}
	return f.String()
}

func (ev *Eval) shortName(n string) string {
	return strings.TrimPrefix(n, ev.w.mod+"/")
}

func (ev *Eval) call(fr *frame, in *ssa.Call, st *State) (Val, *State, bool) {
	cc := in.Call
	site := fr.path + "/" + ev.siteID(fr.path, in, "c")
	where := ev.posOf(in.Pos())
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ev.val(fr, a))
	}
	if cc.IsInvoke() {
		recv := ev.val(fr, cc.Value).t
		return ev.invoke(st, recv, cc.Method, args, site, where)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ev.builtin(fr, st, b.Name(), in, args, where)
	}
	if f := cc.StaticCallee(); f != nil {
		var fvs []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				fvs = append(fvs, ev.val(fr, b))
			}
		}
		return ev.callStatic(st, f, args, fvs, site, where)
	}
	// function value
	return ev.callValue(st, ev.val(fr, cc.Value).t, args, in.Type(), site, where)
}

func (ev *Eval) callValue(st *State, f *Term, args []Val, rt types.Type, site, where string) (Val, *State, bool) {
	fa := ev.facts(st)
	f = fa.simp(f)
	return ev.split(st, f, func(st *State, l *Term, k int) (Val, *State, bool) {
		if l == Nil || l == Undef {
			ev.oblige(st, "nil function call", where, True)
			return Val{}, nil, false
		}
		if fn, ok := ev.fnTab[l.aux]; ok {
			var fvs []Val
			for i, a := range l.args {
				if x, t, ok := ev.unbox(a); ok && types.Identical(t, fn.FreeVars[i].Type()) {
					fvs = append(fvs, x)
				} else {
					fvs = append(fvs, tv(a))
				}
			}
			return ev.callStatic(st, fn, args, fvs, fmt.Sprintf("%s@%d", site, k), where)
		}
		as := []*Term{l}
		for _, a := range args {
			if a.t == nil {
				ev.fail("composite argument to an opaque function at %s", where)
			}
			as = append(as, a.t)
		}
		return tv(App("apply", sortOf(rt), as...)), st, true
	})
}

// split runs f per leaf of a gated receiver and joins the results.
func (ev *Eval) split(st *State, x *Term, f func(*State, *Term, int) (Val, *State, bool)) (Val, *State, bool) {
	if x.kind != KIte {
		return f(st, x, 0)
	}
	lc := leafConds(x)
	var ls []*Term
	for l := range lc {
		ls = append(ls, l)
	}
	sortTerms(ls)
	var es []edge
	var vs []Val
	for i, l := range ls {
		s := st.fork()
		s.cond = And(st.cond, lc[l])
		if s.cond == False {
			continue
		}
		if fa := ev.facts(s); fa.contradictory() {
			continue
		}
		v, ns, ok := f(s, l, i)
		if !ok {
			continue
		}
		es = append(es, edge{st: ns})
		vs = append(vs, v)
	}
	if len(es) == 0 {
		return Val{}, nil, false
	}
	out := ev.merge(es)
	if len(vs) == 1 {
		return vs[0], out, true
	}
	return ev.mergeVals(es, vs), out, true
}

func (ev *Eval) invoke(st *State, recv *Term, m *types.Func, args []Val, site, where string) (Val, *State, bool) {
	fa := ev.facts(st)
	recv = fa.simp(recv)
	return ev.split(st, recv, func(st *State, l *Term, k int) (Val, *State, bool) {
		if l == Nil || l == Undef {
			ev.oblige(st, "method call on nil interface", where, True)
			return Val{}, nil, false
		}
		sk := site
		if k > 0 {
			sk = fmt.Sprintf("%s@%d", site, k)
		}
		if ev.stand != nil {
			if p, dt := ev.stand(l, m.Name()); p != nil {
				return ev.callMethod(st, p, dt, m.Name(), args, sk, where)
			}
		}
		if ev.opaque != nil {
			if v, ok := ev.opaque(ev, st, l, m, args, sk); ok {
				return v, st, true
			}
		}
		dt := ev.dynType(l)
		if dt == nil {
			return ev.opaqueCall(st, "invoke:"+m.Name(), l, args, m.Type().(*types.Signature), sk), st, true
		}
		return ev.callMethod(st, l, dt, m.Name(), args, sk, where)
	})
}

// callMethod calls a (possibly promoted) method on a receiver of known type.
func (ev *Eval) callMethod(st *State, l *Term, dt types.Type, name string, args []Val, site, where string) (Val, *State, bool) {
	fn, path, ptr := ev.w.methodOf(dt, name)
	if fn == nil {
		ev.fail("method %s of %s not found", name, dt)
	}
	var rv Val
	if _, isPtr := dt.Underlying().(*types.Pointer); isPtr {
		p := l
		for i, f := range path {
			p = ev.fieldAddr(st, p, f.Name(), f.Type(), where)
			if _, ok := f.Type().Underlying().(*types.Pointer); ok {
				p = ev.load(st, p, f.Type(), where).t
			}
			if types.IsInterface(f.Type()) {
				iv := ev.load(st, p, f.Type(), where).t
				m, _, _ := types.LookupFieldOrMethod(f.Type(), false, nil, name)
				_ = i
				return ev.invoke(st, iv, m.(*types.Func), args, site, where)
			}
		}
		if ptr {
			rv = tv(p)
		} else {
			rv = ev.load(st, p, fn.Signature.Recv().Type(), where)
		}
	} else {
		v, _, ok := ev.unbox(l)
		if !ok {
			ev.fail("receiver %s", l.short())
		}
		cur := dt
		for _, f := range path {
			s := structOf(cur)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i) == f {
					v = v.fs[i]
				}
			}
			cur = f.Type()
		}
		if ptr {
			ev.fail("pointer method on a value")
		}
		rv = v
	}
	return ev.callStatic(st, fn, append([]Val{rv}, args...), nil, site, where)
}

func (ev *Eval) callStatic(st *State, f *ssa.Function, args, fvs []Val, site, where string) (Val, *State, bool) {
	name := ev.shortName(calleeName(f))
	if h, ok := ev.intr[name]; ok {
		if v, ok := h(ev, st, args, site+"|"+where); ok {
			return v, st, true
		}
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	if f.Name() == "init" && f.Signature.Recv() == nil && f.Synthetic != "" {
		return tv(Nil), st, true // initialisers run once, before the construct (initGlobals)
	}
	if o.Blocks == nil || (o.Pkg != nil && !strings.HasPrefix(o.Pkg.Pkg.Path(), ev.w.mod)) {
		return ev.external(st, name, o, args, site), st, true
	}
	v, ns := ev.callFn(o, args, fvs, st, site)
	if ns == nil {
		return Val{}, nil, false
	}
	return v, ns, true
}

// opaqueCall: result atoms named by method, receiver and arguments; the call is
// appended to the event trace.
func (ev *Eval) opaqueCall(st *State, name string, recv *Term, args []Val, sig *types.Signature, site string) Val {
	as := []*Term{}
	if recv != nil {
		as = append(as, recv)
	}
	for _, a := range args {
		if a.t != nil {
			as = append(as, a.t)
		} else {
			as = append(as, Undef)
		}
	}
	mk := func(i int, t types.Type) *Term {
		n := name
		if sig.Results().Len() > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		s := sortOf(t)
		if t.String() == "error" {
			return Ite(App("ext:fails:"+name, SBool, as...), Err, Nil)
		}
		r := App("ext:"+n, s, as...)
		if isUnsigned(t) {
			markNN(r)
		}
		return r
	}
	switch sig.Results().Len() {
	case 0:
		return tv(Nil)
	case 1:
		return tv(mk(0, sig.Results().At(0).Type()))
	}
	var v Val
	for i := 0; i < sig.Results().Len(); i++ {
		v.fs = append(v.fs, tv(mk(i, sig.Results().At(i).Type())))
	}
	return v
}

func (ev *Eval) event(st *State, e *Term) {
	ev.noteWrite("EV")
	cur := ev.lookup(st, "EV", false)
	st.ov["EV"] = Cat(cur, Lit(e))
}

func (ev *Eval) builtin(fr *frame, st *State, name string, in *ssa.Call, args []Val, where string) (Val, *State, bool) {
	f := ev.facts(st)
	switch name {
	case "len":
		if b, ok := in.Call.Args[0].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return tv(appNN("strlen", args[0].t)), st, true
		}
		return tv(slen(f.simp(args[0].t))), st, true
	case "cap":
		return tv(lift1(f.simp(args[0].t), func(x *Term) *Term {
			if x.kind == KApp && x.aux == "slc" {
				return x.args[3]
			}
			return slen(x)
		})), st, true
	case "append":
		et := elemType(in.Type())
		x, y := f.simp(args[0].t), f.simp(args[1].t)
		if !leafType(et) {
			ev.fail("append of composite elements at %s", where)
		}
		ys := ev.contents(st, y, et)
		inLoop := lift1(x, func(l *Term) *Term {
			if l.kind == KVar || openField(l) || l.kind == KApp && l.aux == "pseq" {
				return True
			}
			return False
		})
		if inLoop != False {
			xs := lift1(x, func(l *Term) *Term {
				if l.kind == KVar || openField(l) {
					return Var("q:"+l.aux, SSeq)
				}
				return ev.contents(st, l, et)
			})
			return tv(PSeq(Cat(xs, ys))), st, true
		}
		xs := ev.contents(st, x, et)
		// in-place effect on the visible array
		ly := Len(ys)
		type inPlace struct{ when, res *Term }
		var ip []inPlace
		conds := leafConds(x)
		for _, l := range leavesOf(x) {
			g := conds[l]
			if l.kind != KApp || l.aux != "slc" {
				continue
			}
			fits := f.simp(And(g, Lt(IntC(0), ly), Le(Add(l.args[2], ly), l.args[3])))
			if fits == False {
				continue
			}
			ev.rangeStore(st, l.args[0], Add(l.args[1], l.args[2]), ly, ys, fits, et)
			ip = append(ip, inPlace{fits, Slc(l.args[0], l.args[1], Add(l.args[2], ly), l.args[3])})
		}
		cat := Cat(xs, ys)
		cl := "A" + ev.siteID(fr.path, in, "app")
		base := ev.Ptr(cl, in.Type(), ev.iter...)
		n := Len(cat)
		ev.rangeStore(st, base, IntC(0), n, cat, True, et)
		res := Slc(base, IntC(0), n, n)
		for _, p := range ip {
			res = Ite(p.when, p.res, res)
		}
		return tv(f.simp(res)), st, true
	case "copy":
		et := elemType(in.Call.Args[0].Type())
		d, s := f.simp(args[0].t), f.simp(args[1].t)
		src := ev.contents(st, s, et)
		n := f.simp(Ite(Le(slen(d), Len(src)), slen(d), Len(src)))
		for l, g := range leafConds(d) {
			if l.kind == KApp && l.aux == "slc" {
				ev.rangeStore(st, l.args[0], l.args[1], n, src, g, et)
			} else if l != Nil {
				ev.fail("copy into an opaque slice at %s", where)
			}
		}
		return tv(n), st, true
	case "min", "max":
		r := args[0].t
		for _, a := range args[1:] {
			var le *Term
			if sortOf(in.Type()) == SInt {
				le = Le(r, a.t)
			} else {
				le = NLe(r, a.t)
			}
			if name == "min" {
				r = Ite(le, r, a.t)
			} else {
				r = Ite(le, a.t, r)
			}
		}
		return tv(f.simp(r)), st, true
	case "print", "println":
		return tv(Nil), st, true
	case "clear", "delete", "close":
	}
	ev.fail("builtin %s at %s", name, where)
	return Val{}, nil, false
}

// rangeStore writes seq[j] to element off+j for j<n.
func (ev *Eval) rangeStore(st *State, base, off, n, seq, gate *Term, et types.Type) {
	c, args, ok := addrOf(base)
	if !ok {
		return
	}
	ec := c + "[]"
	k0 := IntC(0)
	ev.Ptr(ec, et, append(append([]*Term{}, args...), k0)...)
	key := ev.heapKey(ec)
	ev.noteWrite(key)
	body := ev.lookup(st, key, false)
	fm := ev.cls[ec].fm
	g := gate
	for i := range args {
		g = And(g, Eq(fm[i], args[i]))
	}
	last := fm[len(fm)-1]
	j := Sub(last, off)
	g = And(g, Le(IntC(0), j), Lt(j, n))
	save := ev.base
	ev.base = ev.base.clone()
	ev.base.add(And(Le(IntC(0), j), Lt(j, n)))
	v := ev.base.simp(At(seq, j, sortOf(et)))
	ev.base = save
	st.ov[key] = Ite(g, v, body)
}

// ---------------------------------------------------------------- CFG

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	depth  int
}

type fnInfo struct {
	fn     *ssa.Function
	loops  map[*ssa.BasicBlock]*loop
	inOf   map[*ssa.BasicBlock]*loop
	rpo    []*ssa.BasicBlock
	irred  bool
	orders map[*loop][]*ssa.BasicBlock
}

func (ev *Eval) info(fn *ssa.Function) *fnInfo {
	if i, ok := ev.infos[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, loops: map[*ssa.BasicBlock]*loop{}, inOf: map[*ssa.BasicBlock]*loop{}, orders: map[*loop][]*ssa.BasicBlock{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for k := len(post) - 1; k >= 0; k-- {
		i.rpo = append(i.rpo, post[k])
	}
	for _, b := range i.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.loops[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					i.loops[s] = l
				}
				// natural loop of the back edge
				stk := []*ssa.BasicBlock{b}
				for len(stk) > 0 {
					x := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stk = append(stk, x.Preds...)
				}
			}
		}
	}
	var ls []*loop
	for _, l := range i.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(a, b int) bool {
		if len(ls[a].blocks) != len(ls[b].blocks) {
			return len(ls[a].blocks) < len(ls[b].blocks)
		}
		return ls[a].head.Index < ls[b].head.Index
	})
	for _, l := range ls {
		for b := range l.blocks {
			if i.inOf[b] == nil {
				i.inOf[b] = l
			}
		}
		for _, m := range ls {
			if m != l && m.blocks[l.head] && len(m.blocks) > len(l.blocks) {
				l.parent = m
				break
			}
		}
	}
	ev.infos[fn] = i
	return i
}

// order lists the blocks directly handled in the region of L, inner loops being
// represented by their header.
func (i *fnInfo) order(L *loop) []*ssa.BasicBlock {
	if o, ok := i.orders[L]; ok {
		return o
	}
	var out []*ssa.BasicBlock
	for _, b := range i.rpo {
		if L != nil && !L.blocks[b] {
			continue
		}
		in := i.inOf[b]
		if in == L {
			out = append(out, b)
			continue
		}
		if in != nil && in.head == b && in.parent == L {
			out = append(out, b)
		}
	}
	// RPO can place an exit block before parts of a loop; a loop header stands
	// for all its blocks, so sort topologically on the collapsed graph.
	out = i.topo(L, out)
	i.orders[L] = out
	return out
}

func (i *fnInfo) rep(L *loop, b *ssa.BasicBlock) *ssa.BasicBlock {
	l := i.inOf[b]
	if l == L {
		return b
	}
	for l != nil && l.parent != L {
		l = l.parent
	}
	if l == nil {
		return nil
	}
	return l.head
}

func (i *fnInfo) topo(L *loop, bs []*ssa.BasicBlock) []*ssa.BasicBlock {
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range bs {
		in[b] = true
	}
	succ := func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		var out []*ssa.BasicBlock
		add := func(s *ssa.BasicBlock) {
			if L != nil && (!L.blocks[s] || s == L.head) {
				return
			}
			r := i.rep(L, s)
			if r != nil && r != b && in[r] {
				out = append(out, r)
			}
		}
		if l := i.loops[b]; l != nil && l != L {
			var xs []*ssa.BasicBlock
			for x := range l.blocks {
				xs = append(xs, x)
			}
			sort.Slice(xs, func(a, c int) bool { return xs[a].Index < xs[c].Index })
			for _, x := range xs {
				for _, s := range x.Succs {
					if !l.blocks[s] {
						add(s)
					}
				}
			}
		} else {
			for _, s := range b.Succs {
				add(s)
			}
		}
		return out
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range succ(b) {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(bs) == 0 {
		return nil
	}
	st := bs[0]
	if L != nil {
		st = L.head
	}
	dfs(st)
	var out []*ssa.BasicBlock
	for k := len(post) - 1; k >= 0; k-- {
		out = append(out, post[k])
	}
	return out
}

func (i *fnInfo) inner(L *loop, b *ssa.BasicBlock) *loop {
	l := i.loops[b]
	if l == nil || l == L {
		return nil
	}
	return l
}
