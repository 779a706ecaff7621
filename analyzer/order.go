package main

// Ordered effects in goroutines. Scheduling and executing operations have an
// order; a goroutine that does either while another one may do so as well, or
// that is still at it when the function that started it returns, loses it.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type orders struct {
	r    *Run
	memo map[*ssa.Function]int // 1 in progress or no, 2 yes
}

// orderedCall: the call itself executes or schedules an operation.
func (o *orders) orderedCall(c *ssa.CallCommon) bool {
	if m := c.Method; m != nil {
		return m.Name() == "Cal" && m.Type().(*types.Signature).Params().Len() == 0
	}
	g := c.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || g.Pkg == nil && g.Origin() == nil {
		return false
	}
	n := origin(g).String()
	if !strings.Contains(n, o.r.w.mod) {
		return false
	}
	return strings.Contains(n, "/context.Context).Push") || g.Name() == "Cal"
}

// targets of a call, closures included.
func targets(c *ssa.CallCommon) []*ssa.Function {
	var fs []*ssa.Function
	if g := c.StaticCallee(); g != nil {
		fs = append(fs, origin(g))
	}
	for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
		switch a := a.(type) {
		case *ssa.MakeClosure:
			fs = append(fs, origin(a.Fn.(*ssa.Function)))
		case *ssa.Function:
			fs = append(fs, origin(a))
		}
	}
	return fs
}

func (o *orders) ordered(f *ssa.Function) bool {
	if o.memo[f] != 0 {
		return o.memo[f] == 2
	}
	o.memo[f] = 1
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && o.does(c.Common()) {
				o.memo[f] = 2
				return true
			}
		}
	}
	return false
}

func (o *orders) does(c *ssa.CallCommon) bool {
	if o.orderedCall(c) {
		return true
	}
	for _, g := range targets(c) {
		if o.ordered(g) {
			return true
		}
	}
	return false
}

// joins: the instruction waits for something.
func joins(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Select:
		return true
	case *ssa.Call:
		if g := x.Common().StaticCallee(); g != nil && (g.Name() == "Wait" || g.Name() == "Lock") {
			return true
		}
		if m := x.Common().Method; m != nil && (m.Name() == "Wait" || m.Name() == "Lock") {
			return true
		}
	}
	return false
}

func defersWait(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				for _, g := range targets(d.Common()) {
					if g.Name() == "Wait" || len(g.Blocks) > 0 && waits(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

func waits(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if joins(in) {
				return true
			}
		}
	}
	return false
}

func (r *Run) orderRules() {
	o := &orders{r, map[*ssa.Function]int{}}
	rule := "operations are scheduled and executed by one goroutine at a time"
	n, gos := 0, 0
	bad := ""
	for _, f := range r.w.allFunctions() {
		n++
		r.funcs[f.String()] = true
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				gos++
				if !o.does(g.Common()) {
					continue
				}
				pos := r.w.prog.Fset.Position(g.Pos())
				if why := o.overlap(b, i); why != "" && bad == "" {
					bad = fmt.Sprintf("the goroutine started in %s at line %d runs operations, and %s", strings.ReplaceAll(f.String(), r.w.mod+"/", ""), pos.Line, why)
					r.add(rule, strings.ReplaceAll(f.String(), r.w.mod+"/", ""), r.w.rel(f), "violated", bad)
				}
			}
		}
	}
	if bad == "" {
		r.add(rule, "all packages", "", "proved", fmt.Sprintf("%d functions, %d go statements", n, gos))
	}
}

// overlap searches the paths from the go statement to the next place that waits.
func (o *orders) overlap(b *ssa.BasicBlock, at int) string {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) string
	walk = func(b *ssa.BasicBlock, from int) string {
		for _, in := range b.Instrs[from:] {
			if joins(in) {
				return ""
			}
			switch x := in.(type) {
			case *ssa.RunDefers:
				if defersWait(b.Parent()) {
					return ""
				}
			case ssa.CallInstruction:
				if o.does(x.Common()) {
					return fmt.Sprintf("before anything waits for it line %d runs operations as well", o.r.w.prog.Fset.Position(in.Pos()).Line)
				}
			case *ssa.Return:
				return "the function can return before anything waits for it"
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if w := walk(s, 0); w != "" {
					return w
				}
			}
		}
		return ""
	}
	return walk(b, at+1)
}
