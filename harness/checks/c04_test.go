package checks

import (
	"fmt"
	"testing"
)

func (c *C) progClasses(in *Interp, rerr *evalErr) {
	c.ClassIf(in.calls >= 5, "calls>=5")
	c.ClassIf(in.calls >= 20, "calls>=20")
	c.ClassIf(in.maxDepth >= 20, "depth>=20")
	c.ClassIf(in.used["lambda"] >= 4, "lambdas>=4")
	c.ClassIf(rerr != nil, "fails")
	c.ClassIf(rerr == nil, "succeeds")
}

func TestC04(t *testing.T) {
	sub(t, "programs", 1, "random typed programs with many functions (closures, shadowed and redefined names, functions as arguments and results, partial application, recursion) against a reference interpreter; non-trivial: a function is called and the program succeeds", func(c *C) {
		g := newGen(c)
		g.funs = 30
		g.anchors = 10
		if c.Chance(20, "with-errors") {
			g.errs = 15
		}
		docs := g.program(6, c.Int(3, 5, "depth"))
		docs = append(docs, g.dump())
		in, _, rerr, _ := c.RunProg(docs)
		c.progClasses(in, rerr)
		c.NonTrivialIf(in.calls > 0 && rerr == nil)
	})
	sub(t, "scopes", 0.8, "programs over integers in which the same four names are definitions, redefinitions, parameters and definitions inside functions, against a reference interpreter; non-trivial: a name is used while it has two meanings", func(c *C) {
		g := newGen(c)
		g.ints = true
		g.names = []string{"a", "b", "f", "x"}
		g.pnames = []string{"a", "b", "x", "f"}
		g.redef = 90
		g.funs = 35
		g.anchors = 20
		g.tags, g.optional, g.typed = 3, 8, 5
		var docs []*N
		for i := c.Int(2, 8, "steps"); i > 0; i-- {
			switch c.Int(0, 4, "step") {
			case 0, 1:
				n := g.lambda(tFunN(c), 3, true)
				ty := tFun(tInt)
				if n.K == NStr {
					ty.Args = append(ty.Args, tInt)
					n = nYisp(nCall("lambda", nList(nStr("x")), nRef("x")))
				} else {
					for range n.Items[1].Items {
						ty.Args = append(ty.Args, tInt)
					}
				}
				n.Anchor = g.fresh()
				g.define(n.Anchor, ty)
				docs = append(docs, n)
			case 2:
				n := g.expr(tInt, 2, true)
				if n.K == NRef {
					n = nYisp(nCall("progn", n))
				}
				if n.Anchor == "" {
					n.Anchor = g.fresh()
					g.define(n.Anchor, tInt)
				}
				docs = append(docs, nMapOf("def", n))
			default:
				n := nYisp(&N{K: NMap})
				for _, v := range append([]gvar{}, g.vars...) {
					if w := g.find(v.name); w == nil || !w.ty.eq(v.ty) {
						continue
					}
					if v.ty.K == TInt {
						n.Ents = append(n.Ents, &Ent{Key: "v" + v.name, Val: nRef(v.name)})
					} else {
						call := nList(nRef(v.name))
						for range v.ty.Args {
							call.Items = append(call.Items, g.expr(tInt, 1, false))
						}
						n.Ents = append(n.Ents, &Ent{Key: "c" + v.name, Val: call})
					}
				}
				dedup(n)
				n.Ents = append(n.Ents, &Ent{Key: "e", Val: g.expr(tInt, 3, false)})
				docs = append(docs, n)
			}
		}
		docs = append(docs, g.dump())
		in, _, rerr, _ := c.RunProg(docs)
		c.progClasses(in, rerr)
		c.NonTrivialIf(in.calls > 1 && rerr == nil)
	})
	sub(t, "recursion", 0.1, "recursive functions over counts up to 120 and lists up to 60, with local definitions and several functions alive at once; non-trivial: 10 or more calls", func(c *C) {
		g := newGen(c)
		var docs []*N
		k := c.Int(1, 3, "n")
		for i := 0; i < k; i++ {
			n := g.recursive(2)
			n.walk(func(x *N) {
				if x.K == NInt && len(x.Src) == 1 && x.V.I > 3 && c.Bool("bigger") {
					x.V = vInt(x.V.I * int64(c.Int(1, 15, "by")))
					x.Src = x.V.String()
				}
			})
			docs = append(docs, n)
		}
		in, _, rerr, _ := c.RunProg(docs)
		c.progClasses(in, rerr)
		c.NonTrivialIf(in.calls >= 10)
	})
	sub(t, "arguments", 0.15, "calls of a function with 0..4 parameters with the same number of arguments, or with more (an error), by name, inline, through an imported variable path, map or pipeline; non-trivial: at least one parameter", func(c *C) {
		n := c.atMost(0, 4, 16, "params")
		m := n
		if c.Chance(40, "more") {
			m = n + c.Int(1, 3, "extra")
		}
		ps := nList()
		body := nCall("strings.concat")
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("p%d", i)
			ps.Items = append(ps.Items, nStr(p))
			body.Items = append(body.Items, nRef(p), nStr("|"))
		}
		f := nCall("lambda", ps, body)
		var docs []*N
		var call *N
		switch c.Int(0, 2, "how") {
		case 0:
			call = nList(f)
		case 1:
			docs = append(docs, nYisp(f).anchored("f"))
			call = nList(nRef("f"))
		default:
			docs = append(docs, nYisp(nCall("progn", nMapOf("k", f).anchored("m"), nNull())))
			call = nList(nRef("m.k"))
		}
		for i := 0; i < m; i++ {
			call.Items = append(call.Items, nStr(genStr(c, "arg")))
		}
		c.NonTrivialIf(n > 0)
		c.ClassIf(m > n, "too-many")
		c.RunProg(append(docs, nMapOf("r", nYisp(call))))
	})
}

func tFunN(c *C) *Ty {
	t := tFun(tInt)
	for i := c.Int(0, 2, "arity"); i > 0; i-- {
		t.Args = append(t.Args, tInt)
	}
	return t
}

func dedup(n *N) {
	seen := map[string]bool{}
	var out []*Ent
	for _, e := range n.Ents {
		if !seen[e.Key] {
			out = append(out, e)
		}
		seen[e.Key] = true
	}
	n.Ents = out
}
