package checks

import (
	"fmt"
	"path/filepath"
	"testing"
)

func TestC32(t *testing.T) {
	sub(t, "documents", 1, "programs of 1..8 documents of every kind: data, nulls, lists, empty collections, functions, types, imports, includes of 0..3 files with 0..3 documents each (null and list documents too), lists.as-toplevel of lists, nulls, maps and scalars; those through map, filter and flatten and nested in each other; the same as ordinary values inside maps, lists, operators and variables; against a reference interpreter; non-trivial: an expanding list and two output documents", func(c *C) {
		dir := c.Dir()
		p := newProject(c, dir)
		for i := c.Int(1, 3, "files"); i > 0; i-- {
			if c.Bool("program") {
				var docs []*N
				for j := c.Int(0, 3, "docs"); j > 0; j-- {
					docs = append(docs, docKind(c, p, 1))
				}
				if len(docs) == 0 {
					docs = append(docs, nNull())
				}
				f := fmt.Sprintf("p%d.yisp", i)
				setFile(docs, p.abs(f))
				p.progs[f] = docs
				p.order = append(p.order, f)
				p.incs = append(p.incs, f)
			} else {
				var ds []*V
				for j := c.atMost(1, 3, 30, "docs"); j > 0; j-- {
					d := plainDoc(c, 1)
					if c.Chance(15, "scalar") {
						d = vStr("s")
					}
					if j > 1 && c.Chance(15, "null") {
						d = vNull()
					}
					ds = append(ds, d)
				}
				if len(ds) == 1 && ds[0].K == VNull {
					ds[0] = vStr("t")
				}
				f := fmt.Sprintf("d%d.yaml", i)
				if len(ds) == 1 && c.Bool("json") {
					f = fmt.Sprintf("d%d.json", i)
				}
				p.addData(f, ds)
				p.incs = append(p.incs, f)
			}
		}
		var docs []*N
		for i := c.atMost(1, 8, 60, "documents"); i > 0; i-- {
			docs = append(docs, docKind(c, p, 3))
		}
		setFile(docs, p.abs("main.yisp"))
		p.progs["main.yisp"] = docs
		p.order = append(p.order, "main.yisp")
		p.finish()
		want, rerr, ok := p.ref()
		if !ok {
			c.T.Skip("too long")
		}
		c.ClassIf(p.in.used["include"] > 0, "include")
		c.ClassIf(p.in.used["lists.as-toplevel"] > 0, "as-toplevel")
		c.ClassIf(rerr != nil, "error")
		c.ClassIf(len(want) == 0, "no-documents")
		c.ClassIf(len(want) > len(docs), "expands")
		c.NonTrivialIf(rerr == nil && len(want) > 1 && p.in.used["include"]+p.in.used["lists.as-toplevel"] > 0)
		c.Expect(c.EvalFile(filepath.Join(dir, "main.yisp"), memOpts), want, toErr(rerr), false)
		if rerr == nil {
			o := c.EvalFileAny(filepath.Join(dir, "main.yisp"), memOpts)
			if o.Err != nil {
				c.Violate("EvaluateFileToAny: %s", errText(o.Err))
			}
			c.expectAny(o, want, "EvaluateFileToAny")
		}
	})
	sub(t, "visibility", 0.4, "definitions made in one document (on it, inside it, inside operator arguments, in included files, by imports) and uses in the same, later and earlier documents; against a reference interpreter; non-trivial: a later document uses a definition", func(c *C) {
		names := []string{"a", "b", "c"}
		var docs []*N
		for i := c.Int(2, 7, "documents"); i > 0; i-- {
			nm := names[c.Int(0, 2, "name")]
			v := func() *N { return nInt(int64(c.Int(0, 99, "v"))) }
			use := func() *N {
				x := names[c.Int(0, 2, "use")]
				if c.Chance(80, "optional") {
					x += "?"
				}
				return nRef(x)
			}
			switch c.Int(0, 7, "doc") {
			case 0:
				docs = append(docs, v().anchored(nm))
			case 1:
				docs = append(docs, nMapOf("x", use(), "k", v().anchored(nm), "y", use()))
			case 2:
				docs = append(docs, nYisp(nCall("progn", nCall("+", v().anchored(nm), nInt(1)), nNull())))
			case 3:
				docs = append(docs, nYisp(nCall("if", nBool(c.Bool("cond")), v().anchored(nm), v().anchored(names[c.Int(0, 2, "name2")]))))
			case 4:
				docs = append(docs, nNull().anchored(nm))
			case 5:
				docs = append(docs, nYisp(nCall("lambda", nList(nStr("p")), nCall("progn", nRef("p").clone(), use()))).anchored(nm+"f"), nMapOf("r", nYisp(nList(nRef(nm+"f"), nInt(0)))))
			case 6: // inside a function body: belongs to the call
				docs = append(docs, nList(nYisp(nList(nCall("lambda", nList(), nCall("progn", v().anchored(nm), nCall("+", nRef(nm), nInt(0))))))))
			default:
				docs = append(docs, nList(use(), use()))
			}
		}
		docs = append(docs, nMapOf("a", nRef("a?"), "b", nRef("b?"), "c", nRef("c?")))
		in, _, rerr, _ := c.RunProg(docs)
		c.NonTrivialIf(rerr == nil && in.used["ref"] > 3)
	})
}

// docKind draws a document: data, nothing, or something that expands.
func docKind(c *C, p *project, d int) *N {
	lit := func() *N { return nLit(genVal(c, 1, "lit")) }
	var list func(d int) *N // an expression whose value is a list of documents or an ordinary one
	list = func(d int) *N {
		switch k := c.Int(0, 8, "list"); {
		case k < 2 && len(p.incs) > 0:
			return p.includes("main.yisp")
		case k < 4 || d <= 0:
			n := nCall("lists.as-toplevel")
			for i := c.Int(0, 3, "elements"); i > 0; i-- {
				switch c.Int(0, 3, "element") {
				case 0:
					n.Items = append(n.Items, lit())
				case 1:
					n.Items = append(n.Items, nLit(genListV(c, 1, "l")))
				case 2:
					n.Items = append(n.Items, nCall("lambda", nList(nStr("z")), nRef("z")))
				default:
					if d > 0 {
						n.Items = append(n.Items, list(d-1))
					} else {
						n.Items = append(n.Items, nNull())
					}
				}
			}
			return n
		case k == 4:
			f := pick(c, "map-fn", nCall("lambda", nList(nStr("x")), nQuote(nMapOf("v", nRef("x")))), nCall("lambda", nList(nStr("x")), nCall("if", nRef("x"), nNull(), nStr("falsy"))), nCall("lambda", nList(nStr("x")), nRef("x")), nStr("types.of"))
			return nCall("lists.map", list(d-1), f)
		case k == 5:
			f := pick(c, "filter-fn", nCall("lambda", nList(nStr("x")), nRef("x")), nCall("lambda", nList(nStr("x")), nCall("!=", nCall("types.of", nRef("x")), nStr("string"))), nStr("progn"))
			return nCall("lists.filter", list(d-1), f)
		case k == 6:
			n := nCall("lists.flatten", list(d-1))
			if c.Bool("two") {
				n.Items = append(n.Items, list(d-1))
			}
			return n
		case k == 7:
			return nCall("if", nBool(c.Bool("cond")), list(d-1), list(d-1))
		default:
			return nCall("progn", list(d-1), list(d-1))
		}
	}
	switch c.Int(0, 10, "kind") {
	case 0:
		return nNull()
	case 1:
		return nOf(genVal(c, 2, "data"))
	case 2:
		return nYisp(nCall("lambda", nList(nStr("x")), nRef("x")))
	case 3:
		return nYisp(nCall("schema", nQuote(nMapOf("type", nStr("string")))))
	case 4, 5, 6:
		return nYisp(list(d))
	case 7:
		return nMapOf("in", nYisp(list(d)))
	case 8:
		return nList(nYisp(list(d)), nYisp(list(d-1)))
	case 9:
		return nYisp(nMapOf("n", nCall("lists.length", list(d)), "y", nCall("lists.cons", nInt(1), list(d))))
	default: // through a variable
		nm := fmt.Sprintf("w%d", c.Int(0, 3, "var"))
		x := nYisp(nCall("progn", list(d))).anchored(nm)
		if c.Bool("use") {
			return nMapOf("def", x, "use", nRef(nm))
		}
		return x
	}
}
