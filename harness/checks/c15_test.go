package checks

import "testing"

func TestC15(t *testing.T) {
	sub(t, "values", 1, "random schemas (all types, bounds, multipleOf, lengths, formats, required, nested properties, additionalProperties of every form, items, oneOf) and 1..4 values each, satisfying ones and ones changed at one random place, checked by types.assert in several call forms; verdict and result against a reference validator; non-trivial: the schema has two or more levels or a constraint", func(c *C) {
		s := genSch(c, 3, schOpt{fun: c.Chance(15, "fun")})
		schemaBecomes := schemaOf(s.value())
		docs := []*N{nYisp(nCall("schema", nLit(s.value())).anchored("T"))}
		n := c.Int(1, 4, "values")
		for i := 0; i < n; i++ {
			v := s.good(c, 3)
			miss := i == n-1 && c.Chance(60, "near-miss")
			if miss {
				v = s.nearMiss(c, v, 4)
			}
			ok := schemaBecomes.valid(v)
			if !ok && i < n-1 {
				continue // an error hides the rest
			}
			c.ClassIf(ok && miss, "near-miss-accepted")
			c.ClassIf(!ok, "rejected")
			c.ClassIf(ok && !miss, "accepted")
			x := flowEmpty(nLit(v))
			var e *N
			switch c.Int(0, 6, "form") {
			case 0:
				e = nCall("types.assert", nCall("schema", nLit(s.value())), x)
			case 1:
				e = nCall("lists.map", nQuote(nList(flowEmpty(nOf(v)))), nCall("lambda", nList(nStr("q")), nCall("types.assert", nRef("T"), nRef("q"))))
				if v.K == VLam {
					e = nCall("types.assert", nRef("T"), x)
				}
			case 2:
				e = nList(nCall("lambda", nList(nStr("t"), nStr("q")), nCall("types.assert", nRef("t"), nRef("q"))), nRef("T"), x)
			default:
				e = nCall("types.assert", nRef("T"), x)
			}
			docs = append(docs, nList(nYisp(e)))
		}
		lv := 0
		var dep func(s *Sch, d int)
		dep = func(s *Sch, d int) {
			lv = max(lv, d)
			if s.Items != nil {
				dep(s.Items, d+1)
			}
			for _, p := range s.Props {
				dep(p, d+1)
			}
			for _, p := range s.OneOf {
				dep(p, d+1)
			}
			if s.AddlSch != nil {
				dep(s.AddlSch, d+1)
			}
		}
		dep(s, 1)
		c.ClassIf(lv >= 3, "levels>=3")
		c.NonTrivialIf(lv >= 2 || s.Min != nil || s.Max != nil || s.ExMin != nil || s.ExMax != nil || s.MultipleOf != nil || s.MinLen != nil || s.MaxLen != nil)
		c.RunProg(docs)
	})
	sub(t, "numbers", 0.5, "numeric schemas and the numbers right at, just below and just above every bound, also beyond 2^53; non-trivial: always", func(c *C) {
		s := &Sch{Type: pick(c, "type", "integer", "integer", "float")}
		for s.Min == nil && s.Max == nil && s.ExMin == nil && s.ExMax == nil && s.MultipleOf == nil {
			bounds(c, s, float64(c.Int(-5, 10, "lo")))
			if c.Chance(20, "multiple") {
				s.MultipleOf = ip(int64(c.Int(1, 7, "of")))
			}
		}
		e := s.edges()
		f := e[c.Int(0, len(e)-1, "edge")]
		var v *V
		if c.Bool("int") {
			v = vInt(int64(min(max(f, -9e18), 9e18)) + int64(c.Int(-1, 1, "off")))
		} else {
			v = vFloat(f)
		}
		c.NonTrivial()
		c.ClassIf(s.valid(v), "accepted")
		c.ClassIf(!s.valid(v), "rejected")
		wrapped, wv := s, v
		switch c.Int(0, 3, "where") {
		case 1:
			wrapped, wv = &Sch{Type: "array", Items: s}, vList(v)
		case 2:
			wrapped, wv = &Sch{Type: "object", Props: map[string]*Sch{"n": s}, PropNames: []string{"n"}}, vMapOf("n", v)
		case 3:
			wrapped, wv = &Sch{Type: "object", Addl: 3, AddlSch: s}, vMapOf("x", v)
		}
		c.RunProg([]*N{nList(nYisp(nCall("types.assert", nCall("schema", nLit(wrapped.value())), nLit(wv))))})
	})
	sub(t, "functions", 0.3, "function schemas (0..3 arguments, with or without a result type, of nested list, map and function types) and functions whose parameters and result are untyped or tagged with the same types, or types that differ in one place, alone or in lists and maps, by name or inline; against structural equality of types; non-trivial: an argument or result type is tagged on the function", func(c *C) {
		docs, fs, f, v, typed := genFunction(c)
		c.NonTrivialIf(typed)
		c.ClassIf(fs.valid(v), "accepted")
		c.ClassIf(!fs.valid(v), "rejected")
		s, x := fs, f
		if c.Chance(30, "named") {
			docs = append(docs, nYisp(f.anchored("f")))
			x = nRef("f")
		}
		switch c.Int(0, 4, "where") {
		case 0:
			s, x = &Sch{Type: "array", Items: fs}, nCall("lists.cons", x, nList())
		case 1:
			s, x = &Sch{Type: "object", Props: map[string]*Sch{"n": fs}, PropNames: []string{"n"}}, nCall("maps.make", nStr("n"), x)
		case 2:
			s = &Sch{OneOf: []*Sch{{Type: "string"}, fs}}
		}
		docs = append(docs, nYisp(nList(nList(nStr("lambda"), nList(nStr("v")), nStr("passed")), nCall("types.assert", nCall("schema", nLit(s.value())), x))))
		c.RunProg(docs)
	})
}

// genFunction makes a function type and a function that has that type or nearly has it. The
// first result declares the types the function names; typed tells that it names some.
func genFunction(c *C) (docs []*N, fs *Sch, f *N, v *V, typed bool) {
	fs = &Sch{Type: "function", HasArgs: true, Args: []*Sch{}}
	ps := nList()
	lam := &Lam{}
	names := 0
	tag := func(s *Sch) (string, *Sch) { // the tag a function written for s has
		if c.Chance(25, "untyped") {
			return "", nil
		}
		if c.Chance(25, "changed") {
			s = s.altered(c)
			c.Class("altered")
		}
		if b, ok := map[string]string{"integer": "int", "string": "string", "boolean": "bool", "float": "float", "null": "null"}[s.Type]; ok && c.Bool("builtin") {
			return "!" + b, s
		}
		names++
		t := "T" + string(rune('a'+names))
		docs = append(docs, nYisp(nCall("schema", nLit(s.value())).anchored(t)))
		return "!" + t, s
	}
	for i := c.Int(0, 3, "args"); i > 0; i-- {
		a := plainType(c, 3)
		fs.Args = append(fs.Args, a)
		p := nStr("p" + string(rune('0'+i)))
		var s *Sch
		p.Tag, s = tag(a)
		typed = typed || s != nil
		ps.Items = append(ps.Items, p)
		lam.Params = append(lam.Params, Param{p.S, s})
	}
	if c.Chance(10, "count") {
		if n := len(ps.Items); n > 0 && c.Bool("fewer") {
			ps.Items, lam.Params = ps.Items[:n-1], lam.Params[:n-1]
		} else {
			ps.Items, lam.Params = append(ps.Items, nStr("more")), append(lam.Params, Param{"more", nil})
		}
	}
	if c.Bool("returns") {
		fs.Returns = plainType(c, 3)
	}
	r := fs.Returns
	if r == nil {
		r = plainType(c, 2)
	}
	if ps.Tag, lam.Returns = tag(r); lam.Returns != nil {
		typed = true
		if len(ps.Items) == 0 {
			ps = flowEmpty(ps)
		}
	}
	return docs, fs, nCall("lambda", ps, nInt(1)), &V{K: VLam, Lam: lam}, typed
}

// plainType is a type without constraints.
func plainType(c *C, d int) *Sch {
	k := c.Int(0, 8, "type")
	if d <= 0 {
		k %= 5
	}
	switch k {
	case 0, 1, 2, 3, 4:
		return &Sch{Type: pick(c, "scalar", "integer", "string", "boolean", "float", "null", "any")}
	case 5, 6:
		s := &Sch{Type: "array"}
		if c.Chance(85, "items") {
			s.Items = plainType(c, d-1)
		}
		return s
	case 7:
		s := &Sch{Type: "function", HasArgs: true, Args: []*Sch{}}
		for i := c.Int(0, 2, "args"); i > 0; i-- {
			s.Args = append(s.Args, plainType(c, d-1))
		}
		if c.Bool("returns") {
			s.Returns = plainType(c, d-1)
		}
		return s
	}
	s := &Sch{Type: "object", Props: map[string]*Sch{}}
	for i := c.Int(0, 3, "props"); i > 0; i-- {
		k := propName(c)
		if s.Props[k] == nil {
			s.PropNames = append(s.PropNames, k)
		}
		s.Props[k] = plainType(c, d-1)
	}
	return s
}

// altered is a plain type that differs in one place, or not at all.
func (s *Sch) altered(c *C) *Sch {
	t := *s
	switch {
	case s.Type == "array" && s.Items != nil && c.Chance(80, "inside"):
		if c.Chance(15, "no-items") {
			t.Items = nil
		} else {
			t.Items = s.Items.altered(c)
		}
		return &t
	case s.Type == "array" && s.Items == nil && c.Bool("some-items"):
		t.Items = &Sch{Type: "any"}
		return &t
	case s.Type == "object" && c.Chance(80, "inside"):
		t.Props = map[string]*Sch{}
		for k, p := range s.Props {
			t.Props[k] = p
		}
		t.PropNames = append([]string{}, s.PropNames...)
		if n := len(s.PropNames); n > 0 && c.Chance(70, "change") {
			i := c.Int(0, n-1, "prop")
			k := s.PropNames[i]
			switch c.Int(0, 2, "how") {
			case 0:
				t.Props[k] = s.Props[k].altered(c)
			case 1: // another name
				delete(t.Props, k)
				if t.Props["other"] == nil {
					t.PropNames[i] = "other"
				}
				t.Props["other"] = s.Props[k]
			default:
				delete(t.Props, k)
				t.PropNames = append(t.PropNames[:i], t.PropNames[i+1:]...)
			}
		} else {
			t.Props["more"] = &Sch{Type: "string"}
			t.PropNames = append(t.PropNames, "more")
		}
		return &t
	case s.Type == "function" && c.Chance(80, "inside"):
		t.Args = append([]*Sch{}, s.Args...)
		switch c.Int(0, 3, "how") {
		case 0:
			if s.Returns != nil {
				t.Returns = s.Returns.altered(c)
				return &t
			}
			t.Returns = &Sch{Type: "any"}
		case 1:
			if s.Returns != nil {
				t.Returns = nil
				return &t
			}
			t.Args = append(t.Args, &Sch{Type: "string"})
		default:
			if n := len(t.Args); n > 0 {
				i := c.Int(0, n-1, "arg")
				t.Args[i] = s.Args[i].altered(c)
			} else {
				t.Args = append(t.Args, &Sch{Type: "string"})
			}
		}
		return &t
	}
	return plainType(c, 1)
}
