package main

// Bit-precise dataflow for the half precision conversions: every bit of every
// SSA value is a boolean function (reduced ordered decision diagram) of the bits of
// the arguments. Control flow joins merge values under the conditions of the
// incoming edges; loops are followed until their back edge is unreachable.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type bdd int32

type bddNode struct {
	lvl    int32
	lo, hi bdd
}

type bitMan struct {
	nodes []bddNode
	uniq  map[bddNode]bdd
	memo  map[[3]bdd]bdd
}

const bF, bT = bdd(0), bdd(1)

func newBitMan() *bitMan {
	m := &bitMan{uniq: map[bddNode]bdd{}, memo: map[[3]bdd]bdd{}}
	m.nodes = []bddNode{{1 << 30, 0, 0}, {1 << 30, 1, 1}}
	return m
}

func (m *bitMan) mk(l int32, lo, hi bdd) bdd {
	if lo == hi {
		return lo
	}
	n := bddNode{l, lo, hi}
	if b, ok := m.uniq[n]; ok {
		return b
	}
	if len(m.nodes) > 4000000 {
		panic(undecided{"the bit functions grow too large"})
	}
	m.nodes = append(m.nodes, n)
	m.uniq[n] = bdd(len(m.nodes) - 1)
	return m.uniq[n]
}

func (m *bitMan) v(l int) bdd { return m.mk(int32(l), bF, bT) }

func (m *bitMan) ite(c, a, b bdd) bdd {
	switch {
	case c == bT || a == b:
		return a
	case c == bF:
		return b
	case a == bT && b == bF:
		return c
	}
	k := [3]bdd{c, a, b}
	if r, ok := m.memo[k]; ok {
		return r
	}
	l := min(m.nodes[c].lvl, m.nodes[a].lvl, m.nodes[b].lvl)
	co := func(x bdd, hi bool) bdd {
		if n := m.nodes[x]; n.lvl == l {
			if hi {
				return n.hi
			}
			return n.lo
		}
		return x
	}
	r := m.mk(l, m.ite(co(c, false), co(a, false), co(b, false)), m.ite(co(c, true), co(a, true), co(b, true)))
	m.memo[k] = r
	return r
}

func (m *bitMan) not(a bdd) bdd    { return m.ite(a, bF, bT) }
func (m *bitMan) and(a, b bdd) bdd { return m.ite(a, b, bF) }
func (m *bitMan) or(a, b bdd) bdd  { return m.ite(a, bT, b) }
func (m *bitMan) xor(a, b bdd) bdd { return m.ite(a, m.not(b), b) }

// word: bits, least significant first.
type word []bdd

func (m *bitMan) wconst(x uint64, n int) word {
	w := make(word, n)
	for i := range w {
		if x>>uint(i)&1 == 1 {
			w[i] = bT
		}
	}
	return w
}

func (m *bitMan) map2(a, b word, f func(x, y bdd) bdd) word {
	w := make(word, len(a))
	for i := range a {
		w[i] = f(a[i], b[i])
	}
	return w
}

func (m *bitMan) sel(c bdd, a, b word) word {
	return m.map2(a, b, func(x, y bdd) bdd { return m.ite(c, x, y) })
}

func (m *bitMan) inv(a word) word {
	return m.map2(a, a, func(x, _ bdd) bdd { return m.not(x) })
}

func (m *bitMan) add(a, b word, c bdd) word {
	w := make(word, len(a))
	for i := range a {
		x := m.xor(a[i], b[i])
		w[i] = m.xor(x, c)
		c = m.or(m.and(a[i], b[i]), m.and(x, c))
	}
	return w
}

func (m *bitMan) sub(a, b word) word { return m.add(a, m.inv(b), bT) }

func (m *bitMan) any(a word) bdd {
	r := bF
	for _, x := range a {
		r = m.or(r, x)
	}
	return r
}

func (m *bitMan) eq(a, b word) bdd { return m.not(m.any(m.map2(a, b, m.xor))) }

// less: a < b.
func (m *bitMan) less(a, b word, signed bool) bdd {
	r := bF
	n := len(a)
	for i := range a {
		x, y := a[i], b[i]
		if signed && i == n-1 {
			x, y = y, x
		}
		r = m.ite(m.xor(x, y), y, r)
	}
	return r
}

func (m *bitMan) shift(a word, by word, left, arith bool) word {
	n := len(a)
	fill := bF
	if arith {
		fill = a[n-1]
	}
	cur := a
	rest := bF
	for k, c := range by {
		if k < 16 && 1<<uint(k) < n {
			d := 1 << uint(k)
			w := make(word, n)
			for i := range w {
				j := i + d
				if left {
					j = i - d
				}
				w[i] = fill
				if j >= 0 && j < n {
					w[i] = cur[j]
				} else if left {
					w[i] = bF
				}
			}
			cur = m.sel(c, w, cur)
			continue
		}
		rest = m.or(rest, c)
	}
	all := make(word, n)
	for i := range all {
		all[i] = fill
	}
	return m.sel(rest, all, cur)
}

func (m *bitMan) mul(a, b word) word {
	r := m.wconst(0, len(a))
	for i := range b {
		if b[i] == bF {
			continue
		}
		s := make(word, len(a))
		for j := range s {
			if j >= i {
				s[j] = m.and(a[j-i], b[i])
			}
		}
		r = m.add(r, s, bF)
	}
	return r
}

// example gives an assignment that makes f true.
func (m *bitMan) example(f bdd) map[int]bool {
	out := map[int]bool{}
	for f > bT {
		n := m.nodes[f]
		if n.hi != bF {
			out[int(n.lvl)] = true
			f = n.hi
		} else {
			f = n.lo
		}
	}
	return out
}

// ---- abstract values

type bitVal struct {
	w    word // integers, booleans (one bit), floats (their representation)
	fs   []*bitVal
	obj  int // pointer to an object (0: not a pointer)
	path []int
	null bool
}

type bitEnv struct {
	regs map[ssa.Value]*bitVal
	mem  map[int]*bitVal
}

func (e *bitEnv) copy() *bitEnv {
	n := &bitEnv{map[ssa.Value]*bitVal{}, map[int]*bitVal{}}
	for k, v := range e.regs {
		n.regs[k] = v
	}
	for k, v := range e.mem {
		n.mem[k] = v
	}
	return n
}

type bitFlow struct {
	m     *bitMan
	r     *Run
	nobj  int
	fails bdd // conditions under which the function stops with a run-time error
	steps int
	depth int
}

func (f *bitFlow) stop(format string, as ...any) { panic(undecided{fmt.Sprintf(format, as...)}) }

func (f *bitFlow) merge(c bdd, a, b *bitVal) *bitVal {
	switch {
	case a == b || b == nil:
		return a
	case a == nil:
		return b
	case a.w != nil && b.w != nil && len(a.w) == len(b.w):
		return &bitVal{w: f.m.sel(c, a.w, b.w)}
	case a.fs != nil && len(a.fs) == len(b.fs):
		o := &bitVal{}
		for i := range a.fs {
			o.fs = append(o.fs, f.merge(c, a.fs[i], b.fs[i]))
		}
		return o
	case a.obj != 0 && a.obj == b.obj && fmt.Sprint(a.path) == fmt.Sprint(b.path):
		return a
	case a.null && b.null:
		return a
	}
	return &bitVal{} // of no use
}

func (f *bitFlow) mergeEnv(c bdd, a, b *bitEnv) *bitEnv {
	o := a.copy()
	for k, v := range b.regs {
		o.regs[k] = f.merge(c, a.regs[k], v)
	}
	for k, v := range b.mem {
		o.mem[k] = f.merge(c, a.mem[k], v)
	}
	return o
}

func bitWidth(t types.Type) (n int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32, types.Float32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr, types.Float64:
		return 64, false
	}
	return 0, false
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (f *bitFlow) zero(t types.Type) *bitVal {
	if s, ok := t.Underlying().(*types.Struct); ok {
		o := &bitVal{fs: []*bitVal{}}
		for i := 0; i < s.NumFields(); i++ {
			o.fs = append(o.fs, f.zero(s.Field(i).Type()))
		}
		return o
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 4096 {
		o := &bitVal{fs: []*bitVal{}}
		for i := int64(0); i < a.Len(); i++ {
			o.fs = append(o.fs, f.zero(a.Elem()))
		}
		return o
	}
	if n, _ := bitWidth(t); n > 0 {
		return &bitVal{w: f.m.wconst(0, n)}
	}
	return &bitVal{null: true}
}

func (f *bitFlow) val(e *bitEnv, v ssa.Value) *bitVal {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return f.zero(c.Type())
		}
		n, _ := bitWidth(c.Type())
		switch {
		case c.Value.Kind() == constant.Bool:
			if constant.BoolVal(c.Value) {
				return &bitVal{w: word{bT}}
			}
			return &bitVal{w: word{bF}}
		case n > 0 && !isFloatType(c.Type()):
			k := constant.ToInt(c.Value)
			if x, ok := constant.Int64Val(k); ok {
				return &bitVal{w: f.m.wconst(uint64(x), n)}
			}
			if x, ok := constant.Uint64Val(k); ok {
				return &bitVal{w: f.m.wconst(x, n)}
			}
		}
		f.stop("constant %s", c)
	}
	x := e.regs[v]
	if x == nil {
		f.stop("value %s of type %s", v.Name(), v.Type())
	}
	return x
}

func (f *bitFlow) w(e *bitEnv, v ssa.Value) word {
	x := f.val(e, v)
	if x.w == nil {
		f.stop("%s is not a word", v.Name())
	}
	return x.w
}

func (f *bitFlow) load(e *bitEnv, p *bitVal) *bitVal {
	if p.obj == 0 {
		f.stop("load through an unknown pointer")
	}
	x := e.mem[p.obj]
	for _, i := range p.path {
		if x == nil || i >= len(x.fs) {
			f.stop("load of an unknown part")
		}
		x = x.fs[i]
	}
	if x == nil {
		f.stop("load of an unknown object")
	}
	return x
}

func (f *bitFlow) update(x *bitVal, path []int, v *bitVal) *bitVal {
	if len(path) == 0 {
		return v
	}
	if x == nil || path[0] >= len(x.fs) {
		f.stop("store to an unknown part")
	}
	o := &bitVal{fs: append([]*bitVal{}, x.fs...)}
	o.fs[path[0]] = f.update(x.fs[path[0]], path[1:], v)
	return o
}

func (f *bitFlow) resize(x word, signed bool, n int) word {
	w := make(word, n)
	for i := range w {
		switch {
		case i < len(x):
			w[i] = x[i]
		case signed:
			w[i] = x[len(x)-1]
		}
	}
	return w
}

// lenOf: the number of bits needed for x, as a word of n bits.
func (f *bitFlow) lenOf(x word, n int) word {
	r := f.m.wconst(0, n)
	for i := range x {
		r = f.m.sel(x[i], f.m.wconst(uint64(i+1), n), r)
	}
	return r
}

type bitPending struct {
	cond bdd
	env  *bitEnv
}

// call evaluates fn; the state is that of the caller under cond.
func (f *bitFlow) call(fn *ssa.Function, args []*bitVal, cond bdd, mem map[int]*bitVal) ([]*bitVal, map[int]*bitVal) {
	if fn.Blocks == nil {
		f.stop("no body for %s", fn)
	}
	if f.depth++; f.depth > 20 {
		f.stop("recursion in %s", fn)
	}
	defer func() { f.depth-- }()
	f.r.funcs[fn.String()] = true
	order := map[*ssa.BasicBlock]int{}
	var visit func(b *ssa.BasicBlock)
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				visit(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	visit(fn.Blocks[0])
	for i, b := range post {
		order[b] = len(post) - i
	}
	pend := map[*ssa.BasicBlock]*bitPending{}
	env := &bitEnv{map[ssa.Value]*bitVal{}, map[int]*bitVal{}}
	for k, v := range mem {
		env.mem[k] = v
	}
	for i, p := range fn.Params {
		env.regs[p] = args[i]
	}
	pend[fn.Blocks[0]] = &bitPending{cond, env}
	var rets []*bitVal
	var rmem map[int]*bitVal
	rcond := bF
	edge := func(from, to *ssa.BasicBlock, c bdd, e *bitEnv) {
		if c == bF {
			return
		}
		n := e.copy()
		idx := -1
		for i, p := range to.Preds {
			if p == from {
				idx = i
			}
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			// the same block may be reached twice from an if with equal branches
			if c, ok := ph.Edges[idx].(*ssa.Const); ok {
				n.regs[ph] = f.val(e, c)
			} else {
				n.regs[ph] = e.regs[ph.Edges[idx]]
			}
		}
		if p := pend[to]; p != nil {
			pend[to] = &bitPending{f.m.or(c, p.cond), f.mergeEnv(c, n, p.env)}
		} else {
			pend[to] = &bitPending{c, n}
		}
	}
	for len(pend) > 0 {
		var bs []*ssa.BasicBlock
		for b := range pend {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return order[bs[i]] < order[bs[j]] })
		b := bs[0]
		p := pend[b]
		delete(pend, b)
		if f.steps++; f.steps > 5000 {
			f.stop("a loop in %s is not bounded by the width of its words", fn)
		}
		e, c := p.env, p.cond
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				k := f.w(e, x.Cond)[0]
				edge(b, b.Succs[0], f.m.and(c, k), e)
				edge(b, b.Succs[1], f.m.and(c, f.m.not(k)), e)
			case *ssa.Jump:
				edge(b, b.Succs[0], c, e)
			case *ssa.Return:
				var vs []*bitVal
				for _, v := range x.Results {
					vs = append(vs, f.val(e, v))
				}
				if rets == nil && rmem == nil {
					rets, rmem = vs, e.mem
				} else {
					for i := range vs {
						vs[i] = f.merge(c, vs[i], rets[i])
					}
					rets = vs
					rmem = f.mergeEnv(c, &bitEnv{mem: e.mem}, &bitEnv{mem: rmem}).mem
				}
				rcond = f.m.or(rcond, c)
			case *ssa.Panic:
				f.fails = f.m.or(f.fails, c)
			default:
				f.instr(in, e, c)
			}
		}
	}
	if rmem == nil {
		rmem = mem
	}
	return rets, rmem
}

func (f *bitFlow) instr(in ssa.Instruction, e *bitEnv, c bdd) {
	m := f.m
	switch x := in.(type) {
	case *ssa.Alloc:
		f.nobj++
		e.mem[f.nobj] = f.zero(x.Type().Underlying().(*types.Pointer).Elem())
		e.regs[x] = &bitVal{obj: f.nobj}
	case *ssa.FieldAddr:
		p := f.val(e, x.X)
		if p.obj == 0 {
			f.stop("field of an unknown object")
		}
		e.regs[x] = &bitVal{obj: p.obj, path: append(append([]int{}, p.path...), x.Field)}
	case *ssa.Field:
		p := f.val(e, x.X)
		if x.Field >= len(p.fs) {
			f.stop("field of an unknown structure")
		}
		e.regs[x] = p.fs[x.Field]
	case *ssa.Store:
		p := f.val(e, x.Addr)
		if p.obj == 0 {
			f.stop("store through an unknown pointer")
		}
		e.mem[p.obj] = f.update(e.mem[p.obj], p.path, f.val(e, x.Val))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			e.regs[x] = f.load(e, f.val(e, x.X))
		case token.NOT, token.XOR:
			e.regs[x] = &bitVal{w: m.inv(f.w(e, x.X))}
		case token.SUB:
			if isFloatType(x.Type()) {
				f.stop("floating point arithmetic")
			}
			a := f.w(e, x.X)
			e.regs[x] = &bitVal{w: m.sub(m.wconst(0, len(a)), a)}
		default:
			f.stop("operator %s", x.Op)
		}
	case *ssa.BinOp:
		e.regs[x] = &bitVal{w: f.binop(x, e, c)}
	case *ssa.ChangeType:
		e.regs[x] = f.val(e, x.X)
	case *ssa.Convert:
		n, _ := bitWidth(x.Type())
		_, s := bitWidth(x.X.Type())
		if n == 0 || isFloatType(x.Type()) || isFloatType(x.X.Type()) {
			f.stop("conversion from %s to %s", x.X.Type(), x.Type())
		}
		e.regs[x] = &bitVal{w: f.resize(f.w(e, x.X), s, n)}
	case *ssa.Extract:
		t := f.val(e, x.Tuple)
		if x.Index >= len(t.fs) {
			f.stop("result of an unknown call")
		}
		e.regs[x] = t.fs[x.Index]
	case *ssa.Call:
		f.r.calls++
		e.regs[x] = f.invoke(x, e, c)
	default:
		f.stop("%T", in)
	}
}

func (f *bitFlow) invoke(x *ssa.Call, e *bitEnv, c bdd) *bitVal {
	m := f.m
	if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") && !isFloatType(x.Type()) {
		_, s := bitWidth(x.Type())
		r := f.w(e, x.Call.Args[0])
		for _, a := range x.Call.Args[1:] {
			y := f.w(e, a)
			l := m.less(y, r, s)
			if b.Name() == "max" {
				l = m.less(r, y, s)
			}
			r = m.sel(l, y, r)
		}
		return &bitVal{w: r}
	}
	fn := x.Call.StaticCallee()
	if fn == nil {
		f.stop("call of %s", x.Call.Value.Name())
	}
	switch fn.String() {
	case "math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits":
		return f.val(e, x.Call.Args[0])
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64":
		return &bitVal{w: f.lenOf(f.w(e, x.Call.Args[0]), 64)}
	case "math/bits.LeadingZeros", "math/bits.LeadingZeros8", "math/bits.LeadingZeros16", "math/bits.LeadingZeros32", "math/bits.LeadingZeros64":
		a := f.w(e, x.Call.Args[0])
		return &bitVal{w: m.sub(m.wconst(uint64(len(a)), 64), f.lenOf(a, 64))}
	case "math/bits.TrailingZeros", "math/bits.TrailingZeros8", "math/bits.TrailingZeros16", "math/bits.TrailingZeros32", "math/bits.TrailingZeros64":
		a := f.w(e, x.Call.Args[0])
		r := m.wconst(uint64(len(a)), 64)
		for i := len(a) - 1; i >= 0; i-- {
			r = m.sel(a[i], m.wconst(uint64(i), 64), r)
		}
		return &bitVal{w: r}
	}
	var as []*bitVal
	for _, a := range x.Call.Args {
		as = append(as, f.val(e, a))
	}
	if len(fn.FreeVars) > 0 {
		f.stop("closure %s", fn)
	}
	rs, mem := f.call(fn, as, c, e.mem)
	e.mem = map[int]*bitVal{}
	for k, v := range mem {
		e.mem[k] = v
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return &bitVal{fs: rs}
}

func (f *bitFlow) binop(x *ssa.BinOp, e *bitEnv, c bdd) word {
	m := f.m
	if isFloatType(x.X.Type()) {
		f.stop("floating point arithmetic")
	}
	a, b := f.w(e, x.X), f.w(e, x.Y)
	_, s := bitWidth(x.X.Type())
	_, sy := bitWidth(x.Y.Type())
	bit := func(k bdd) word { return word{k} }
	switch x.Op {
	case token.ADD:
		return m.add(a, b, bF)
	case token.SUB:
		return m.sub(a, b)
	case token.MUL:
		if n, k := 0, 0; true {
			for i := range a {
				if a[i] > bT {
					n++
				}
				if b[i] > bT {
					k++
				}
			}
			if n > 12 && k > 12 {
				f.stop("product of two words")
			}
			if n < k {
				a, b = b, a
			}
		}
		return m.mul(a, b)
	case token.AND:
		return m.map2(a, b, m.and)
	case token.OR:
		return m.map2(a, b, m.or)
	case token.XOR:
		return m.map2(a, b, m.xor)
	case token.AND_NOT:
		return m.map2(a, m.inv(b), m.and)
	case token.SHL, token.SHR:
		if sy {
			f.fails = m.or(f.fails, m.and(c, b[len(b)-1]))
		}
		return m.shift(a, b, x.Op == token.SHL, s && x.Op == token.SHR)
	case token.QUO, token.REM:
		k := -1
		for i, y := range b {
			if y > bT || y == bT && k >= 0 {
				f.stop("division")
			}
			if y == bT {
				k = i
			}
		}
		if k < 0 || s {
			f.stop("division")
		}
		w := make(word, len(a))
		for i := range w {
			if x.Op == token.QUO && i+k < len(a) {
				w[i] = a[i+k]
			}
			if x.Op == token.REM && i < k {
				w[i] = a[i]
			}
		}
		return w
	case token.EQL:
		return bit(m.eq(a, b))
	case token.NEQ:
		return bit(m.not(m.eq(a, b)))
	case token.LSS:
		return bit(m.less(a, b, s))
	case token.GTR:
		return bit(m.less(b, a, s))
	case token.LEQ:
		return bit(m.not(m.less(b, a, s)))
	case token.GEQ:
		return bit(m.not(m.less(a, b, s)))
	}
	f.stop("operator %s", x.Op)
	return nil
}

// ---- the suite

// half: the parts of a half or single precision representation.
type ieee struct {
	m         *bitMan
	w         word
	mant, exp word
	sign      bdd
	nan, inf  bdd
}

func (m *bitMan) ieee(w word) ieee {
	mb := 10
	if len(w) == 32 {
		mb = 23
	}
	n := len(w)
	f := ieee{m: m, w: w, mant: w[:mb], exp: w[mb : n-1], sign: w[n-1]}
	ones := m.not(m.any(m.inv(f.exp)))
	f.nan = m.and(ones, m.any(f.mant))
	f.inf = m.and(ones, m.not(m.any(f.mant)))
	return f
}

// widened: the single precision representation of the number that h denotes.
func (m *bitMan) widened(h word) word {
	x := m.ieee(h)
	make32 := func(exp word, mant word) word {
		w := append(append(word{}, mant...), exp...)
		return append(w, x.sign)
	}
	low := func(d int) word { return append(m.wconst(0, d), x.mant...) } // mant << d
	r := make32(m.wconst(0, 8), m.wconst(0, 23))
	// subnormal numbers: mant * 2^-24, by the position of the leading bit
	for p := 0; p < 10; p++ {
		w := low(23 - p) // leading bit at 23, dropped
		r = m.sel(x.mant[p], make32(m.wconst(uint64(127-24+p), 8), append(append(word{}, w...), m.wconst(0, 23)...)[:23]), r)
	}
	r = m.sel(m.any(x.exp), make32(m.add(append(append(word{}, x.exp...), m.wconst(0, 3)...), m.wconst(127-15, 8), bF), low(13)), r)
	return m.sel(x.inf, make32(m.wconst(255, 8), m.wconst(0, 23)), r)
}

// narrowed: the half precision number nearest to s, ties to even.
func (m *bitMan) narrowed(s word) word {
	x := m.ieee(s)
	round := func(q word, rem word) word { // rem/2^len(rem) is the fraction that is cut off
		half := m.and(rem[len(rem)-1], m.not(m.any(rem[:len(rem)-1])))
		up := m.and(rem[len(rem)-1], m.or(m.not(half), q[0]))
		return m.add(q, m.wconst(0, len(q)), up)
	}
	full := append(append(word{}, x.mant...), bT) // 1.mant, 24 bits
	r := m.wconst(0, 15)
	for e := 1; e < 255; e++ {
		h := e - 127 + 15
		var v word
		switch {
		case h >= 31:
			v = m.wconst(0x7c00, 15)
		case h >= 1:
			q := append(append(word{}, x.mant[13:]...), m.wconst(uint64(h), 5)...)
			v = round(q, x.mant[:13])
		default: // cut 14-h bits off
			d := 14 - h
			if d > 24 {
				continue
			}
			q := append(append(word{}, full[d:]...), m.wconst(0, 15)...)[:15]
			v = round(q, full[:d])
		}
		r = m.sel(m.eq(x.exp, m.wconst(uint64(e), 8)), v, r)
	}
	r = m.sel(x.inf, m.wconst(0x7c00, 15), r)
	return append(r, x.sign)
}

type bitCase struct {
	f    *bitFlow
	r    *Run
	name string
	pos  string
	vars map[string][]int
	next int
}

func (b *bitCase) input(name string, n int) word {
	w := make(word, n)
	ls := make([]int, n)
	for i := n - 1; i >= 0; i-- { // exponent bits first, mantissa downwards
		ls[i] = b.next
		w[i] = b.f.m.v(b.next)
		b.next++
	}
	b.vars[name] = ls
	return w
}

// holds: the condition is true for every input.
func (b *bitCase) holds(rule string, k bdd) {
	bad := b.f.m.not(k)
	if bad == bF {
		b.r.add(rule, b.name, b.pos, "proved", "")
		return
	}
	ex := b.f.m.example(bad)
	var names []string
	for n := range b.vars {
		names = append(names, n)
	}
	sort.Strings(names)
	d := "fails for"
	for _, n := range names {
		x := uint64(0)
		for i, l := range b.vars[n] {
			if ex[l] {
				x |= 1 << uint(i)
			}
		}
		d += fmt.Sprintf(" %s=%#x", n, x)
	}
	b.r.add(rule, b.name, b.pos, "violated", d)
}

func (b *bitCase) same(rule string, when bdd, got, want word) {
	if len(got) != len(want) {
		b.r.add(rule, b.name, b.pos, "undecided", "the result has another width")
		return
	}
	b.holds(rule, b.f.m.or(b.f.m.not(when), b.f.m.eq(got, want)))
}

// nanOf: where x is NaN, the result is NaN of the same sign.
func (b *bitCase) nanOf(x ieee, got word) bdd {
	m := b.f.m
	y := m.ieee(got)
	return m.or(m.not(x.nan), m.and(y.nan, m.not(m.xor(x.sign, y.sign))))
}

func (r *Run) bits(name string, body func(b *bitCase, fn *ssa.Function)) {
	fn := r.find("scalar", name)
	construct := "scalar." + name
	if fn == nil {
		r.add("anchor", construct, "", "violated", "the function does not exist any more")
		return
	}
	b := &bitCase{f: &bitFlow{m: newBitMan(), r: r}, r: r, name: construct, pos: r.w.rel(fn), vars: map[string][]int{}}
	defer func() {
		r.blocks += b.f.steps
		if x := recover(); x != nil {
			if u, ok := x.(undecided); ok {
				r.add("analysable", construct, b.pos, "undecided", u.why)
				return
			}
			r.add("analysable", construct, b.pos, "undecided", fmt.Sprintf("internal: %v", x))
		}
	}()
	body(b, fn)
	if fn.Signature.Results().Len() > 0 {
		b.holds("never stops with a run-time error", b.f.m.not(b.f.fails))
	}
}

// boxed: a half precision number in memory; field is where its representation lies.
func (b *bitCase) boxed(t types.Type, w word) (*bitVal, map[int]*bitVal) {
	v := b.rep(t, w)
	b.f.nobj++
	return &bitVal{obj: b.f.nobj}, map[int]*bitVal{b.f.nobj: v}
}

// the one field of 16 bits of the boxed number
func (b *bitCase) field(t types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		b.f.stop("F16 is not a structure")
	}
	at := -1
	for i := 0; i < s.NumFields(); i++ {
		if n, _ := bitWidth(s.Field(i).Type()); n == 16 && at < 0 {
			at = i
		} else {
			b.f.stop("F16 has more than its representation")
		}
	}
	if at < 0 {
		b.f.stop("F16 has no representation of 16 bits")
	}
	return at
}

func (b *bitCase) rep(t types.Type, w word) *bitVal {
	at := b.field(t)
	v := b.f.zero(t)
	v.fs[at] = &bitVal{w: w}
	return v
}

func (b *bitCase) value(t types.Type, v *bitVal) word {
	if v == nil || len(v.fs) == 0 || v.fs[b.field(t)].w == nil {
		b.f.stop("the result is not a boxed number")
	}
	return v.fs[b.field(t)].w
}

func suiteBits(r *Run) {
	r.suite = "bits"
	t := types.Type(nil)
	if n := r.w.named("scalar", "F16"); n != nil {
		t = n
	} else {
		r.add("anchor", "scalar.F16", "", "violated", "the type does not exist any more")
		return
	}
	r.bits("F16fromF32", func(b *bitCase, fn *ssa.Function) {
		x := b.input("value", 32)
		f := b.f.m.ieee(x)
		rs, mem := b.f.call(fn, []*bitVal{{w: x}}, bT, map[int]*bitVal{})
		got := b.value(t, mem[rs[0].obj])
		b.same("the nearest half precision number, ties to even", b.f.m.not(f.nan), got, b.f.m.narrowed(x))
		b.holds("NaN stays NaN of its sign", b.nanOf(f, got))
	})
	r.bits("F16.S32", func(b *bitCase, fn *ssa.Function) {
		x := b.input("value", 32)
		p, mem := b.boxed(t, b.input("before", 16))
		f := b.f.m.ieee(x)
		_, mem = b.f.call(fn, []*bitVal{p, {w: x}}, bT, mem)
		got := b.value(t, mem[p.obj])
		b.same("stores the nearest half precision number, ties to even", b.f.m.not(f.nan), got, b.f.m.narrowed(x))
		b.holds("NaN stays NaN of its sign", b.nanOf(f, got))
		b.holds("never stops with a run-time error", b.f.m.not(b.f.fails))
	})
	r.bits("F16.G32", func(b *bitCase, fn *ssa.Function) {
		h := b.input("stored", 16)
		p, mem := b.boxed(t, h)
		f := b.f.m.ieee(h)
		rs, after := b.f.call(fn, []*bitVal{p}, bT, mem)
		b.same("exactly the number that is stored", b.f.m.not(f.nan), rs[0].w, b.f.m.widened(h))
		b.holds("NaN stays NaN of its sign", b.nanOf(f, rs[0].w))
		b.same("reading changes nothing", bT, b.value(t, after[p.obj]), h)
		if s := r.find("scalar", "F16.S32"); s != nil {
			_, again := b.f.call(s, []*bitVal{p, rs[0]}, bT, after)
			b.same("storing what was read changes nothing", b.f.m.not(f.nan), b.value(t, again[p.obj]), h)
		}
	})
	pred := func(name string, want func(b *bitCase, x ieee) bdd) {
		r.bits("F16."+name, func(b *bitCase, fn *ssa.Function) {
			h := b.input("stored", 16)
			p, mem := b.boxed(t, h)
			rs, after := b.f.call(fn, []*bitVal{p}, bT, mem)
			b.same("true for exactly these numbers", bT, rs[0].w, word{want(b, b.f.m.ieee(h))})
			b.same("asking changes nothing", bT, b.value(t, after[p.obj]), h)
		})
	}
	pred("IsNaN", func(b *bitCase, x ieee) bdd { return x.nan })
	pred("IsQuietNaN", func(b *bitCase, x ieee) bdd { return b.f.m.and(x.nan, x.w[9]) })
	pred("IsFinite", func(b *bitCase, x ieee) bdd { return b.f.m.not(b.f.m.or(x.nan, x.inf)) })
	pred("IsNormal", func(b *bitCase, x ieee) bdd {
		return b.f.m.and(b.f.m.any(x.exp), b.f.m.not(b.f.m.or(x.nan, x.inf)))
	})
	pred("Signbit", func(b *bitCase, x ieee) bdd { return x.sign })
	r.bits("F16.IsInf", func(b *bitCase, fn *ssa.Function) {
		h := b.input("stored", 16)
		s := b.input("sign", 64)
		m := b.f.m
		p, mem := b.boxed(t, h)
		x := m.ieee(h)
		rs, _ := b.f.call(fn, []*bitVal{p, {w: s}}, bT, mem)
		neg, zero := s[63], m.not(m.any(s))
		pos := m.and(m.not(neg), m.not(zero))
		want := m.and(x.inf, m.or(zero, m.or(m.and(pos, m.not(x.sign)), m.and(neg, x.sign))))
		b.same("true for exactly the infinities of the sign", bT, rs[0].w, word{want})
	})
	r.bits("F16NaN", func(b *bitCase, fn *ssa.Function) {
		rs, _ := b.f.call(fn, nil, bT, map[int]*bitVal{})
		b.holds("is NaN", b.f.m.ieee(b.value(t, rs[0])).nan)
	})
	r.bits("F16Inf", func(b *bitCase, fn *ssa.Function) {
		s := b.input("sign", 64)
		m := b.f.m
		rs, _ := b.f.call(fn, []*bitVal{{w: s}}, bT, map[int]*bitVal{})
		got := b.value(t, rs[0])
		b.same("infinity of the sign", bT, got, append(m.wconst(0x7c00, 15), s[63]))
	})
}

func init() { suites["bits"] = suiteBits }
