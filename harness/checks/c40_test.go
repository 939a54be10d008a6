package checks

import (
	"math"
	"path/filepath"
	"testing"
)

// ev evaluates x within quoted data.
func ev(x *N) *N {
	if x.K == NRef {
		return x
	}
	return nYisp(x)
}

// moved uses a value by a detour that does not change it.
func moved(c *C, x *N, what string) *N {
	switch c.Int(0, 7, what) {
	case 0, 1:
		return x
	case 2:
		return nCall("progn", nInt(1), x)
	case 3:
		f := lam([]string{"e"}, nRef("e"))
		if c.Bool("typed") { // a type it also satisfies
			f.Items[1].Items[0].Tag = "!Any"
		}
		return nList(f, x)
	case 4:
		return nCall("if", nBool(true), x, nNull())
	case 5:
		return nCall("lists.car", nQuote(nList(ev(x), nInt(1))))
	case 6:
		return nCall("lists.car", nCall("lists.map", nQuote(nList(ev(x))), lam([]string{"e"}, nRef("e"))))
	default:
		return nCall("lists.car", nCall("lists.filter", nQuote(nList(ev(x), nInt(1))), lam([]string{"e"}, nBool(true))))
	}
}

func hugeWhole(v *V) bool {
	switch v.K {
	case VFloat:
		return math.Abs(v.F) >= 1<<62
	case VList:
		for _, x := range v.L {
			if hugeWhole(x) {
				return true
			}
		}
	case VMap:
		for _, k := range v.M.keys {
			if hugeWhole(v.M.m[k]) {
				return true
			}
		}
	}
	return false
}

func TestC40(t *testing.T) {
	sub(t, "round-trip", 1, "a value cast to a random schema (every kind, nested, with constraints and defaults), passed through variables, functions and lists; the schema that types.get reads from it, made a type again, is used to cast up to 3 other values, good and changed at one place: accepted, completed and rejected as by the original, and types.get of the result gives the same schema again; non-trivial: a rejected or completed value", func(c *C) {
		s := genSch(c, 3, schOpt{defaults: c.Chance(60, "defaults")})
		if c.Chance(60, "object") && s.Type != "object" {
			s = &Sch{Type: "object", Props: map[string]*Sch{"w": s, "n": genSch(c, 2, schOpt{defaults: true}).withDefault(c)}, PropNames: []string{"w", "n"}}
		}
		tidyDefaults(s)
		s = schemaOf(s.value())
		v := s.good(c, 3)
		if _, ok := s.cast(v); !ok || hasFun(v) {
			c.T.Skip("no value")
		}
		if hugeWhole(s.value()) { // beyond 64-bit integers when read back
			c.T.Skip("huge default")
		}
		x := flowEmpty(nOf(v)).anchored("x")
		x.Tag = "!T"
		base := []*N{nYisp(nCall("schema", nQuote(nMapOf("type", nStr("any")))).anchored("Any")), nYisp(nCall("schema", nLit(s.value())).anchored("T")), nYisp(nCall("progn", nQuote(nList(x)), nNull())),
			nYisp(nCall("schema", nCall("types.get", moved(c, nRef("x"), "moved"))).anchored("U"))}
		run := func(docs []*N) Out {
			return c.Eval(printDocs(docs, c.Seed("layout"), c.Chance(10, "noise")))
		}
		get := nMapOf("g", nYisp(nCall("types.get", nRef("x"))))
		first := run(append(append([]*N{}, base...), get))
		if first.Err != nil {
			c.Violate("types.get of a value of type %v: %s", s.value(), errText(first.Err))
		}
		g := c.Docs(first)
		if len(g) != 1 || g[0].K != VMap || g[0].M.m["g"] == nil || g[0].M.m["g"].K != VMap {
			c.Violate("types.get gives %v", g)
		}
		c.Note("schema read back: %v", g[0].M.m["g"])
		for i := c.Int(1, 3, "values"); i > 0; i-- {
			w := s.good(c, 3)
			if c.Chance(50, "near-miss") {
				w = s.nearMiss(c, w, 4)
			}
			if hasFun(w) {
				continue
			}
			want, ok := s.cast(w)
			y := flowEmpty(nOf(w))
			y.Tag = "!U"
			docs := append([]*N{}, base...)
			again := c.Chance(30, "again")
			if again {
				y.Anchor = "y"
			}
			docs = append(docs, nMapOf("r", y))
			c.ClassIf(!ok, "rejected")
			c.ClassIf(ok && want.size() > w.size(), "completed")
			c.NonTrivialIf(!ok || want.size() > w.size())
			var res []*V
			var err error
			if ok {
				res = []*V{vMapOf("r", want)}
			} else {
				err = &evalErr{Msg: "does not satisfy the schema"}
			}
			c.Expect(run(docs), res, err, false)
			if ok && again { // the schema of that value is the same again
				docs = append(docs, nMapOf("g", nYisp(nCall("types.get", moved(c, nRef("y"), "moved-again")))))
				c.Expect(run(docs), []*V{res[0], g[0]}, nil, false)
			}
		}
	})
	sub(t, "whose", 0.5, "values with and without a type next to each other (cast ones, parts of them, lists that hold them, copies made from them by writing the same data again, equal values cast to another schema): types.get gives each its own schema and null for what was never cast; non-trivial: two schemas or more", func(c *C) {
		n := c.Int(1, 4, "types")
		docs := []*N{nYisp(nCall("schema", nQuote(nMapOf("type", nStr("any")))).anchored("Any"))}
		var schs []*Sch
		for i := 0; i < n; i++ {
			k := 10 + i // told apart by a bound
			s := &Sch{Type: pick(c, "type", "integer", "string", "array", "object", "any", "boolean"), MaxLen: func() *int64 { x := int64(k); return &x }()}
			schs = append(schs, s)
			docs = append(docs, nYisp(nCall("schema", nQuote(nMapOf("type", nStr(s.Type), "maxLength", nInt(int64(k))))).anchored(string(rune('A'+i)))))
		}
		out := &N{K: NMap}
		want := newOMap()
		typed := 0
		for i := c.Int(1, 6, "values"); i > 0; i-- {
			nm := "v" + string(rune('0'+i))
			var t *Sch
			x := &N{K: NMap, Ents: []*Ent{{Key: "a", Val: nList(nInt(1))}}}
			tag := ""
			if c.Chance(65, "typed") {
				j := c.Int(0, n-1, "which")
				t, tag = schs[j], "!"+string(rune('A'+j))
				typed++
			} else {
				t = &Sch{Type: pick(c, "untyped", "integer", "string", "array", "object", "any", "boolean")}
			}
			var val *N
			switch t.Type {
			case "integer":
				val = nInt(int64(c.Int(0, 3, "int")))
			case "string":
				val = nStr(pick(c, "str", "", "a", "b c"))
			case "boolean":
				val = nBool(c.Bool("bool"))
			case "array":
				val = flowEmpty(nList(nInt(1)))
			case "object":
				if tag != "" { // no properties are declared
					val = flowEmpty(&N{K: NMap})
				} else {
					val = x
				}
			default:
				val = x
			}
			val.Tag = tag
			val.Anchor = nm
			docs = append(docs, nYisp(nCall("progn", nQuote(nList(val)), nNull())))
			e := func(k string, x *N, t *V) {
				out.Ents = append(out.Ents, &Ent{Key: k, Val: nYisp(nCall("types.get", x))})
				want.Set(k, t)
			}
			own := vNull()
			if tag != "" {
				own = vMapOf("type", vStr(t.Type), "maxLength", vInt(*t.MaxLen))
			}
			if c.Chance(30, "used-before") {
				docs = append(docs, nYisp(nCall("progn", moved(c, nRef(nm), "used"), nNull())))
			}
			e(nm, moved(c, nRef(nm), "moved"), own)
			if c.Bool("in-list") {
				e(nm+"-list", nQuote(nList(nRef(nm))), vNull())
				e(nm+"-item", nCall("lists.car", nQuote(nList(nRef(nm)))), own)
			}
			if c.Bool("in-map") {
				e(nm+"-map", nQuote(nMapOf("k", nRef(nm))), vNull())
			}
			if c.Bool("again") { // the same data without the type
				v2 := val.clone()
				v2.Tag, v2.Anchor = "", ""
				e(nm+"-data", nCall("lists.car", nQuote(nList(v2))), vNull())
			}
			if c.Bool("asserted") && tag != "" { // an assertion is no cast
				e(nm+"-asserted", nCall("types.assert", nRef(tag[1:]), nRef(nm)), own)
			}
		}
		c.NonTrivialIf(n >= 2 && typed >= 2)
		docs = append(docs, out)
	})
	sub(t, "modules", 0.25, "a module that exports a type, values cast to it and functions that return them; the program that imports it reads their schemas, casts values to the type by its exported name and to the schema it read; non-trivial: always", func(c *C) {
		s := genSch(c, 2, schOpt{defaults: c.Chance(60, "defaults")})
		tidyDefaults(s)
		s = schemaOf(s.value())
		v := s.good(c, 3)
		full, ok := s.cast(v)
		if !ok || hasFun(v) || hugeWhole(s.value()) {
			c.T.Skip("no value")
		}
		c.NonTrivial()
		dir := c.Dir()
		x := flowEmpty(nOf(v)).anchored("x")
		x.Tag = "!T"
		y := flowEmpty(nOf(v))
		y.Tag = "!T"
		mod := []*N{nYisp(nCall("schema", nLit(s.value())).anchored("T")), nQuote(nList(x)), nYisp(nCall("lambda", nList(), nCall("lists.car", nQuote(nList(y))))).anchored("f")}
		w := s.good(c, 3)
		if c.Chance(40, "near-miss") {
			w = s.nearMiss(c, w, 4)
		}
		if hasFun(w) {
			c.T.Skip("function")
		}
		want, fine := s.cast(w)
		z := flowEmpty(nOf(w))
		imp := nYisp(nCall("import", nList(nStr("m"), nStr("mod.yisp"))))
		docs := []*N{imp, nYisp(nCall("schema", nQuote(nMapOf("type", nStr("any")))).anchored("Any")), nYisp(nCall("schema", nCall("types.get", moved(c, nRef("m.x"), "moved"))).anchored("U")),
			nYisp(nCall("schema", nCall("types.get", nList(nRef("m.f")))).anchored("W"))}
		z.Tag = pick(c, "cast-to", "!U", "!W", "!m.T")
		docs = append(docs, nMapOf("x", nRef("m.x"), "f", nYisp(nList(nRef("m.f"))), "same", nYisp(nCall("==", nCall("types.get", nRef("m.x")), nCall("types.get", nList(nRef("m.f")))))), nMapOf("r", z))
		c.Write(dir, map[string]string{"mod.yisp": printDocs(mod, c.Seed("layout"), false), "main.yisp": printDocs(docs, c.Seed("layout2"), false)})
		var res []*V
		var err error
		if fine {
			res = []*V{vMapOf("x", full, "f", full, "same", vBool(true)), vMapOf("r", want)}
		} else {
			err = &evalErr{Msg: "does not satisfy the schema"}
			c.Class("rejected")
		}
		c.Expect(c.EvalFile(filepath.Join(dir, "main.yisp"), memOpts), res, err, false)
	})
}
