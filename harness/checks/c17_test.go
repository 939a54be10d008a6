package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"
)

func TestC17(t *testing.T) {
	sub(t, "calls", 1, "functions of 1..3 parameters, each untyped or typed with null, bool, int, float, string or a declared schema (also through a module), called with conforming arguments or one that is changed at one place, directly, by name, through lists.map, filter, reduce, pipeline, a module, a returned closure, a map of functions; the body fails in a recognisable way, or returns its arguments: a mismatch is an error that does not come from the body; against a reference; non-trivial: a typed parameter", func(c *C) {
		dir := c.Dir()
		names := []string{"null", "bool", "int", "float", "string"}
		schs := map[string]*Sch{}
		for k, v := range builtinTypes {
			schs[k] = v
		}
		var defs []*N
		for i := c.Int(0, 2, "declared"); i > 0; i-- {
			nm := pick(c, "type-name", "T", "my-type", "Port", "X_1")
			s := schemaOf(genSch(c, 2, schOpt{fun: c.Chance(25, "fun")}).value())
			if _, ok := schs[nm]; !ok {
				names = append(names, nm)
			}
			schs[nm] = s
			defs = append(defs, nYisp(nCall("schema", nLit(s.value()))).anchored(nm))
		}
		reach := c.Int(0, 9, "reach")
		n := c.atMost(1, 3, 12, "params")
		switch reach {
		case 2, 3, 5:
			n = 1
		case 4:
			n = 2
		}
		ps := nList()
		var args []*V
		ret := nQuote(nList())
		typed := 0
		bad := -1
		if c.Chance(50, "mismatch") {
			bad = c.Int(0, n-1, "at")
		}
		var types []*Sch
		for i := 0; i < n; i++ {
			p := nStr(fmt.Sprintf("p%d", i))
			var s *Sch
			if c.Chance(75, "typed") {
				nm := names[c.Int(0, len(names)-1, "type")]
				if len(names) > 5 && c.Bool("declared-type") {
					nm = names[c.Int(5, len(names)-1, "type")]
				}
				p.Tag = "!" + nm
				s = schs[nm]
				typed++
			}
			types = append(types, s)
			ps.Items = append(ps.Items, p)
			ret.Items = append(ret.Items, nRef(p.S))
			var v *V
			if s == nil {
				v = genVal(c, 2, "arg")
			} else if v = s.good(c, 2); i == bad {
				v = s.nearMiss(c, v, 3)
			}
			args = append(args, v)
		}
		var body *N = ret
		marker := c.Chance(30, "body-fails")
		if marker {
			body = nCall("strings.concat", nRef("body-was-evaluated"))
		}
		if reach == 4 { // reduce: the first parameter gets the second one's kind of value
			body = nRef("q")
			if marker {
				body = nCall("strings.concat", nRef("body-was-evaluated"))
			}
		}
		f := nCall("lambda", ps, body)
		if reach == 9 { // a closure made by another function
			f = nList(nCall("lambda", nList(nStr("unused")), nCall("lambda", ps, body)), nInt(0))
		}
		lits := func(v *V) *N { return flowEmpty(nLit(v)) }
		var main []*N
		mod := append([]*N{}, defs...)
		head := nRef("f")
		if reach == 8 {
			head = nRef("m.f")
			mod = append(mod, nYisp(f).anchored("f"))
			main = []*N{nYisp(nCall("import", nList(nStr("m"), nStr("mod.yisp"))))}
			if c.Bool("own-types") && len(defs) > 0 { // the importer has another meaning for the name
				main = append(main, nYisp(nCall("schema", nQuote(nMapOf("type", nStr("null"))))).anchored(defs[0].Anchor))
			}
		} else {
			main = append(main, defs...)
			if reach == 7 {
				main = append(main, nYisp(nCall("progn", nMapOf("g", f).anchored("fs"), nNull())))
				head = nRef("fs.g")
			} else if c.Chance(70, "named") {
				main = append(main, nYisp(f).anchored("f"))
				if c.Chance(20, "type-redefined") && len(defs) > 0 { // later meaning of the type name does not matter
					main = append(main, nYisp(nCall("schema", nQuote(nMapOf("type", nStr("null"))))).anchored(defs[0].Anchor))
				}
			} else {
				head = f
			}
		}
		var call *N
		switch reach {
		case 2, 3:
			l := nQuote(nList())
			for i := c.Int(0, 2, "others"); i > 0; i-- {
				if types[0] != nil {
					if v := types[0].good(c, 2); types[0].valid(v) {
						l.Items = append(l.Items, flowEmpty(nOf(v)))
					}
				}
			}
			l.Items = append(l.Items, flowEmpty(nOf(args[0])))
			call = nCall(pick(c, "hof", "lists.map", "lists.map", "lists.filter"), l, head)
		case 4:
			call = nCall("lists.reduce", nQuote(nList(flowEmpty(nOf(args[0])), flowEmpty(nOf(args[1])), flowEmpty(nOf(args[1])))), head)
		case 5:
			call = nCall("pipeline", lits(args[0]), head)
			if c.Bool("twice") {
				call.Items = append(call.Items, nCall("lambda", nList(nStr("x")), nRef("x")))
			}
		default:
			call = nList(head)
			for _, a := range args {
				call.Items = append(call.Items, lits(a))
			}
		}
		main = append(main, nMapOf("r", nQuote(nList(nYisp(call)))))
		files := map[string]string{}
		in := newInterp()
		in.fs = map[string]*FSFile{}
		main0 := filepath.Join(dir, "main.yisp")
		setFile(main, main0)
		files["main.yisp"] = printDocs(main, c.Seed("layout"), c.Chance(10, "noise"))
		if reach == 8 {
			setFile(mod, filepath.Join(dir, "mod.yisp"))
			in.fs[filepath.Join(dir, "mod.yisp")] = &FSFile{Prog: mod}
			files["mod.yisp"] = printDocs(mod, c.Seed("layout"), false)
		}
		want, rerr, _ := refRun(in, main, newEnv())
		c.Write(dir, files)
		c.NonTrivialIf(typed > 0)
		o := c.EvalFile(main0, memOpts)
		c.ClassIf(rerr != nil && rerr.Type, "mismatch")
		c.ClassIf(rerr == nil, "accepted")
		c.ClassIf(rerr != nil && !rerr.Type, "body-evaluated")
		c.Expect(o, want, toErr(rerr), true)
		if rerr != nil {
			msg, _, _ := strings.Cut(errText(o.Err), "\n\n") // what follows quotes the source
			inBody := strings.Contains(msg, "body-was-evaluated")
			if rerr.Type && inBody {
				c.Violate("the body was evaluated with an argument of another type: %s", errText(o.Err))
			}
			if !rerr.Type && marker && !inBody {
				c.Violate("conforming arguments were rejected: %s", errText(o.Err))
			}
		}
	})
	sub(t, "functions", 0.3, "a parameter of a declared function type (0..3 arguments, nested types, with or without a result type) gets a function whose parameters and result are untyped, of the same types, or differ in one place, directly, by name, as one of several arguments, through lists.map or pipeline: against structural equality of types; non-trivial: a type is named on the function", func(c *C) {
		docs, fs, f, v, typed := genFunction(c)
		c.NonTrivialIf(typed)
		c.ClassIf(fs.valid(v), "accepted")
		c.ClassIf(!fs.valid(v), "rejected")
		docs = append(docs, nYisp(nCall("schema", nLit(fs.value()))).anchored("FT"))
		if c.Chance(50, "named") {
			docs = append(docs, nYisp(f).anchored("f"))
			f = nRef("f")
		}
		g := nStr("g")
		g.Tag = "!FT"
		ps := nList(g)
		call := nList(nil, f)
		switch c.Int(0, 4, "where") {
		case 0:
			ps = nList(nStr("a"), g)
			call = nList(nil, nInt(1), f)
		case 1:
			ps = nList(g, nStr("b"))
			call = nList(nil, f, nStr("x"))
		case 2:
			call = nCall("lists.map", nCall("lists.cons", f, nList()), nil)
		case 3:
			call = nCall("pipeline", f, nil)
		}
		head := nCall("lambda", ps, nStr("passed"))
		if c.Chance(40, "head-named") {
			docs = append(docs, nYisp(head).anchored("h"))
			head = nRef("h")
		}
		for i, x := range call.Items {
			if x == nil {
				call.Items[i] = head
			}
		}
		c.RunProg(append(docs, nMapOf("r", nQuote(nList(nYisp(call))))))
	})
	sub(t, "builtin", 0.4, "each builtin type with values of every kind; non-trivial: always", func(c *C) {
		ty := pick(c, "type", "null", "bool", "int", "float", "string")
		v := genVal(c, 2, "arg")
		n := c.Int(1, 4, "params")
		at := c.Int(0, n-1, "at")
		ps, call := nList(), nList()
		for i := 0; i < n; i++ {
			p := nStr(fmt.Sprintf("p%d", i))
			x := nLit(genVal(c, 1, "other"))
			if i == at {
				p.Tag = "!" + ty
				x = flowEmpty(nLit(v))
			}
			ps.Items = append(ps.Items, p)
			call.Items = append(call.Items, flowEmpty(x))
		}
		call.Items = append([]*N{nCall("lambda", ps, nQuote(nList(nRef(string(rune('p'+at))))))}, call.Items...)
		c.NonTrivial()
		c.RunProg([]*N{nMapOf("r", nYisp(call))})
	})
	sub(t, "changed", 0.4, "a value is cast to a declared type and then changed by maps.patch, so that it still conforms or no longer does, and the result is passed to a parameter of that type (directly, through a variable, a function, lists.map, pipeline): against a reference validator; non-trivial: it no longer conforms", func(c *C) {
		g := genSch(c, 2, schOpt{defaults: c.Chance(30, "defaults")})
		tidyDefaults(g)
		s := schemaOf(g.value())
		v, ok := s.fill(s.good(c, 2))
		if !ok || !s.valid(v) || v.K != VMap && v.K != VList {
			c.T.Skip("no map or list")
		}
		w := s.nearMiss(c, v.clone(), 3)
		if c.Chance(25, "still-good") {
			w, ok = s.fill(s.good(c, 2))
			if !ok {
				c.T.Skip("cannot be filled")
			}
		}
		if w.K != v.K {
			c.T.Skip("another kind")
		}
		ops := nList()
		op := func(name, token string, val *V) {
			n := nMapOf("op", nStr(name), "path", nStr("/"+escTok(token)))
			if val != nil {
				n.Ents = append(n.Ents, &Ent{Key: "value", Val: flowEmpty(nOf(val))})
			}
			ops.Items = append(ops.Items, n)
		}
		if v.K == VMap {
			for _, k := range v.M.keys {
				if k == "*" || k == "$schema" {
					c.T.Skip("a wildcard")
				}
				if x := w.M.m[k]; x == nil {
					op("remove", k, nil)
				} else if diff(v.M.m[k], x, "", true) != "" {
					op(pick(c, "op", "replace", "add"), k, x)
				}
			}
			for _, k := range w.M.keys {
				if v.M.m[k] == nil {
					if k == "*" || k == "$schema" {
						c.T.Skip("a wildcard")
					}
					op("add", k, w.M.m[k])
				}
			}
		} else {
			for i, x := range v.L {
				if i < len(w.L) && diff(x, w.L[i], "", true) != "" {
					op("replace", fmt.Sprint(i), w.L[i])
				}
			}
			for i := len(v.L) - 1; i >= len(w.L); i-- {
				op("remove", fmt.Sprint(i), nil)
			}
			for i := len(v.L); i < len(w.L); i++ {
				op("add", pick(c, "end", "-", fmt.Sprint(i)), w.L[i])
			}
		}
		x := flowEmpty(nOf(v))
		x.Tag, x.Anchor = "!T", "v"
		f := lam([]string{"p"}, nRef("p"))
		f.Items[1].Items[0].Tag = "!T"
		patched := nCall("maps.patch", nRef("v"), nQuote(ops))
		if len(ops.Items) == 0 {
			patched = nRef("v")
		}
		docs := []*N{nYisp(nCall("schema", nQuote(nMapOf("type", nStr("any"))))).anchored("Any"), nYisp(nCall("schema", nLit(s.value()))).anchored("T"), nList(x), nYisp(f).anchored("f")}
		if c.Bool("bound") && patched.K != NRef {
			docs = append(docs, nYisp(nCall("progn", patched.anchored("w"), nNull())))
			patched = nRef("w")
		}
		arg := moved(c, patched, "moved")
		var call *N
		switch c.Int(0, 3, "reach") {
		case 0:
			call = nCall("lists.map", nQuote(nList(ev(arg))), nRef("f"))
		case 1:
			call = nCall("pipeline", arg, nRef("f"))
		default:
			call = nList(nRef("f"), arg)
		}
		docs = append(docs, nMapOf("r", ev(call)))
		o := c.Eval(printDocs(docs, c.Seed("layout"), false))
		if s.valid(w) {
			if o.Err != nil {
				c.Violate("conforming value %v was rejected: %s", w, errText(o.Err))
			}
			return
		}
		c.NonTrivial()
		if o.Err == nil {
			c.Violate("value %v of another type was accepted:\n%s", w, o.Text)
		}
	})
}
