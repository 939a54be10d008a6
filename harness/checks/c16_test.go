package checks

import (
	"fmt"
	"math"
	"testing"
)

// orderKept: the keys of the original come in the same order in the result.
func orderKept(orig, got *V, path string) string {
	switch {
	case orig.K == VMap && got.K == VMap:
		i := 0
		for _, k := range got.M.keys {
			if i < len(orig.M.keys) && orig.M.keys[i] == k {
				i++
			}
		}
		if i < len(orig.M.keys) {
			return fmt.Sprintf("%s: keys %q became %q", path, orig.M.keys, got.M.keys)
		}
		for _, k := range orig.M.keys {
			if d := orderKept(orig.M.m[k], got.M.m[k], path+"."+k); d != "" {
				return d
			}
		}
	case orig.K == VList && got.K == VList && len(orig.L) == len(got.L):
		for i := range orig.L {
			if d := orderKept(orig.L[i], got.L[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	}
	return ""
}

// plainFloats: a default whose whole floats are not declared floats reads back as integers (a known limit).
func plainFloats(s *Sch, v *V) bool {
	switch v.K {
	case VFloat:
		return (s == nil || s.Type != "float") && v.F == math.Trunc(v.F) || math.IsInf(v.F, 0) || math.IsNaN(v.F)
	case VList:
		for _, x := range v.L {
			var it *Sch
			if s != nil {
				it = s.Items
			}
			if plainFloats(it, x) {
				return true
			}
		}
	case VMap:
		for _, k := range v.M.keys {
			var p *Sch
			if s != nil {
				p = s.Props[k]
			}
			if plainFloats(p, v.M.m[k]) {
				return true
			}
		}
	}
	return false
}

// tidyDefaults removes defaults outside of what is specified.
func tidyDefaults(s *Sch) {
	if s == nil {
		return
	}
	if s.Default != nil && plainFloats(s, s.Default) {
		s.Default = nil
	}
	tidyDefaults(s.Items)
	for _, p := range s.Props {
		tidyDefaults(p)
	}
	for _, p := range s.OneOf {
		tidyDefaults(p)
	}
	tidyDefaults(s.AddlSch)
}

func countDefaults(s *Sch) int {
	n := 0
	if s.Default != nil {
		n++
	}
	for _, p := range s.Props {
		n += countDefaults(p)
	}
	if s.Items != nil {
		n += countDefaults(s.Items)
	}
	return n
}

func TestC16(t *testing.T) {
	sub(t, "casts", 1, "random schemas with defaults at any depth (in objects, list items, absent objects with inner defaults, defaults of every type) and values that satisfy them with random properties left out, or changed at one place; tagged with the type as literals (quoted and evaluated), call results, items, map values, function results and merged maps; against a reference; non-trivial: a default is filled in", func(c *C) {
		s := genSch(c, 3, schOpt{defaults: true})
		if c.Chance(70, "object") && s.Type != "object" {
			s = &Sch{Type: "object", Props: map[string]*Sch{"w": s, "n": genSch(c, 2, schOpt{defaults: true}).withDefault(c)}, PropNames: []string{"w", "n"}}
		}
		tidyDefaults(s)
		s = schemaOf(s.value())
		v := s.good(c, 3)
		miss := c.Chance(30, "near-miss")
		if miss {
			v = s.nearMiss(c, v, 4)
		}
		if hasFun(v) {
			c.T.Skip("function")
		}
		want, ok := s.cast(v)
		docs := []*N{nYisp(nCall("schema", nLit(s.value())).anchored("T"))}
		x := flowEmpty(nOf(v))
		var res *N
		how := c.Int(0, 6, "how")
		if v.K != VMap && v.K != VList && how == 5 {
			how = 0
		}
		switch how {
		case 0, 1:
			x.Tag = "!T"
			res = nMapOf("r", x)
		case 2: // the result of a call
			e := nCall("progn", flowEmpty(nLit(v)))
			e.Tag = "!T"
			res = nYisp(nMapOf("r", e))
		case 3: // in a function
			x.Tag = "!T"
			res = nMapOf("r", nYisp(nList(nCall("lambda", nList(), nQuote(nMapOf("q", x))))))
		case 4: // in lists.map
			x.Tag = "!T"
			res = nMapOf("r", nYisp(nCall("lists.map", nQuote(nList(nInt(1), nInt(2))), nCall("lambda", nList(nStr("i")), nQuote(nList(x))))))
		case 5: // what a variable holds, through a merge key
			if v.K == VMap {
				docs = append(docs, nYisp(nCall("progn", flowEmpty(nLit(v)).anchored("src"), nNull())))
				res = nMapOf("r", &N{K: NMap, Tag: "!T", Ents: []*Ent{{Merge: true, Val: nRef("src")}}}, "src", nRef("src"))
			} else {
				x.Tag = "!T"
				res = nList(x, flowEmpty(nOf(v)))
			}
		default: // with an anchor, used again
			x.Tag = "!T"
			x.Anchor = "z"
			res = nMapOf("r", x, "again", nRef("z"), "checked", nYisp(nCall("types.assert", nRef("T"), nRef("z"))))
		}
		docs = append(docs, res)
		c.ClassIf(!ok, "rejected")
		filled := ok && want.size() > v.size()
		c.ClassIf(filled, "filled")
		c.ClassIf(ok && want.size() > v.size()+3, "filled>3")
		c.NonTrivialIf(filled)
		setFile(docs, memLoc)
		in := newInterp()
		w, rerr, _ := refRun(in, docs, newEnv())
		o := c.Eval(printDocs(docs, c.Seed("layout"), c.Chance(10, "noise")))
		c.Expect(o, w, toErr(rerr), false)
		if rerr == nil && (how <= 1 || how == 6) {
			got := c.Docs(o)
			r := got[len(got)-1].M.m["r"]
			if d := orderKept(v, r, "r"); d != "" {
				c.Violate("the order of given keys changed: %s", d)
			}
		}
	})
	sub(t, "conforming", 0.3, "values that satisfy a schema without defaults: the cast gives exactly the same value, keys in the same order, and one near miss is rejected; non-trivial: nested value", func(c *C) {
		s := schemaOf(genSch(c, 3, schOpt{}).value())
		v := s.good(c, 3)
		if c.Chance(30, "near-miss") {
			v = s.nearMiss(c, v, 4)
		}
		x := flowEmpty(nOf(v))
		x.Tag = "!T"
		c.NonTrivialIf(v.depth() > 0)
		o := c.Eval(printDocs([]*N{nYisp(nCall("schema", nLit(s.value())).anchored("T")), nList(x)}, c.Seed("layout"), false))
		if f, ok := s.fill(v); !ok || !s.valid(v) {
			_ = f
			c.Class("rejected")
			if o.Err == nil {
				c.Violate("%v does not satisfy the schema but the cast gives\n%s", v, o.Text)
			}
			return
		}
		c.Class("accepted")
		c.Expect(o, []*V{vList(v)}, nil, true)
	})
}
