package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: godeepcheck check|dump ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "suite":
		w, err := loadWorld(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		r := &Run{w: w, funcs: map[string]bool{}, debug: true}
		for _, n := range os.Args[3:] {
			suites[n](r)
		}
		cnt := map[string]int{}
		for _, o := range r.obls {
			cnt[o.Status]++
		}
		fmt.Println(cnt, "funcs", len(r.funcs), "loops", r.loops, "calls", r.calls, "terms", termCount)
	case "run-suite":
		runSuite(os.Args[2], os.Args[3], os.Args[4])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "dump":
		dump(os.Args[2], os.Args[3:])
	}
}

func symArg(ev *Eval, name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		es := sortOf(u.Elem())
		if es == SInt {
			return tv(PSeq(Var("shape:"+name, SSeq)))
		}
		if es == SNum {
			return tv(PSeq(Var("num:"+name, SSeq)))
		}
		if p, ok := u.Elem().Underlying().(*types.Pointer); ok {
			n := Var("n:"+name, SInt)
			nonnegAtom[n] = true
			v := Fresh("v", SInt)
			nonnegAtom[v] = true
			return tv(PSeq(Bind("lam", n, v, ev.Ptr("el:"+name, p.Elem(), v))))
		}
	case *types.Struct:
		var r Val
		for i := 0; i < u.NumFields(); i++ {
			r.fs = append(r.fs, symArg(ev, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return r
	}
	s := sortOf(t)
	if s == SOther {
		return tv(Const("obj:"+name, SOther))
	}
	v := Var(name, s)
	if isUnsigned(t) {
		nonnegAtom[v] = true
	}
	if s == SBool {
		return tv(boolize(v))
	}
	return tv(v)
}

func dump(repo string, names []string) {
	w, err := loadWorld(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, n := range names {
		var fn *ssa.Function
		p := strings.Split(n, ".")
		if len(p) == 2 {
			fn = w.fn(p[0], p[1])
		} else {
			fn, _, _ = w.methodOf(types.NewPointer(w.named(p[0], p[1])), p[2])
		}
		if fn == nil {
			fmt.Println("no function", n)
			continue
		}
		func() {
			ev := NewEval(w)
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(undecided); ok {
						fmt.Println("UNDECIDED", n, u.why)
						return
					}
					panic(r)
				}
			}()
			var args []Val
			for _, p := range fn.Params {
				args = append(args, symArg(ev, p.Name(), p.Type()))
			}
			st := ev.newState()
			v, out := ev.callFn(fn, args, nil, st, "")
			fmt.Println("==", n)
			printVal(ev, out, v, fn.Signature.Results())
			if out != nil {
				fmt.Println("  asm:", out.asm)
				for k, b := range out.ov {
					fmt.Println("  mem", k, "=", b)
				}
			}
			for _, o := range ev.obs {
				fmt.Println("  ob:", o.kind, o.pos, o.cond)
			}
			for _, o := range ev.folds {
				fmt.Println("  fold:", o)
			}
			for _, o := range ev.notes {
				fmt.Println("  note:", o)
			}
		}()
	}
}

func printVal(ev *Eval, st *State, v Val, res *types.Tuple) {
	pr := func(x Val, t types.Type) {
		if x.t == nil {
			fmt.Println("  ret: composite")
			return
		}
		if _, ok := t.Underlying().(*types.Slice); ok && st != nil {
			fmt.Println("  ret: contents", ev.contents(st, x.t, elemType(t)), "of", x.t)
			return
		}
		fmt.Println("  ret:", x.t)
	}
	if res.Len() == 1 {
		pr(v, res.At(0).Type())
		return
	}
	for i := range v.fs {
		pr(v.fs[i], res.At(i).Type())
	}
}

var suites = map[string]func(*Run){}
