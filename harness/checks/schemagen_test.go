package checks

// Generators of schemas and of values that satisfy or nearly satisfy them.

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"
)

type schOpt struct {
	defaults bool
	fun      bool
	noOneOf  bool
	refs     []*Sch // schemas that may be referred to
}

var propPool = []string{"a", "b", "c", "name", "spec", "type", "properties", "items", "required", "default", "x y", "é", "1", "true", "$ref", "additionalProperties", "", "<<", "null", "~"}

func propName(c *C) string {
	if c.rarely("numbered") {
		return fmt.Sprintf("p%d", c.Int(0, 30, "prop"))
	}
	if c.Chance(75, "plain-prop") {
		return propPool[c.Int(0, 4, "prop")]
	}
	return propPool[c.Int(0, len(propPool)-1, "prop")]
}

func fp(f float64) *float64 { return &f }
func ip(i int64) *int64     { return &i }

func genSch(c *C, d int, o schOpt) *Sch {
	if len(o.refs) > 0 && c.Chance(15, "ref") {
		return o.refs[c.Int(0, len(o.refs)-1, "which-ref")]
	}
	if d >= 3 && c.rarely("deep-schema") {
		s := genSch(c, 1, o)
		for i := c.Int(4, 14, "levels"); i > 0; i-- {
			switch c.Int(0, 5, "level") {
			case 0, 1:
				s = &Sch{Type: "array", Items: s}
			case 2:
				s = &Sch{Type: "object", Addl: 3, AddlSch: s}
			default:
				k := propName(c)
				s = &Sch{Type: "object", Props: map[string]*Sch{k: s}, PropNames: []string{k}, Addl: c.Int(0, 2, "additional")}
				if c.Chance(70, "required") && s.Props[k].Default == nil {
					s.Required = []string{k}
				}
			}
		}
		return s
	}
	k := c.Int(0, 15, "schema-kind")
	if d >= 2 && c.Chance(25*d, "nested") {
		k = c.Int(9, 15, "nested-kind")
	}
	if d <= 0 && k >= 9 {
		k -= 9
	}
	switch k {
	case 0:
		return &Sch{Type: "any"}
	case 1:
		return &Sch{Type: pick(c, "rare", "null", "boolean", "boolean")}
	case 2, 3:
		s := &Sch{Type: "integer"}
		bounds(c, s, float64(c.Int(-5, 10, "lo")))
		if c.Chance(25, "multiple") {
			s.MultipleOf = ip(int64(c.Int(1, 5, "of")))
		}
		return s
	case 4:
		s := &Sch{Type: "float"}
		bounds(c, s, float64(c.Int(-20, 40, "lo"))/4)
		if c.Chance(15, "multiple") {
			s.MultipleOf = ip(int64(c.Int(1, 3, "of")))
		}
		return s
	case 5, 6, 7:
		s := &Sch{Type: "string"}
		if c.Chance(30, "minlen") {
			s.MinLen = ip(int64(c.Int(0, 3, "n")))
		}
		if c.Chance(30, "maxlen") {
			s.MaxLen = ip(int64(c.Int(0, 6, "n")))
		}
		if c.Chance(20, "format") {
			s.Format = pick(c, "fmt", "int-or-string", "date", "int-or-string")
		}
		return s
	case 8:
		if o.fun {
			s := &Sch{Type: "function", HasArgs: true, Args: []*Sch{}}
			for i := c.atMost(0, 2, 8, "args"); i > 0; i-- {
				s.Args = append(s.Args, &Sch{Type: pick(c, "argtype", "integer", "string", "boolean", "any")})
			}
			return s
		}
		return &Sch{Type: "boolean"}
	case 9, 10:
		s := &Sch{Type: "array"}
		if c.Chance(85, "items") {
			s.Items = genSch(c, d-1, o)
		}
		return s
	case 11:
		if o.noOneOf {
			return &Sch{Type: "string"}
		}
		s := &Sch{OneOf: []*Sch{}}
		for i := c.atMost(1, 3, 8, "alternatives"); i > 0; i-- {
			s.OneOf = append(s.OneOf, genSch(c, d-1, o))
		}
		return s
	default:
		s := &Sch{Type: "object"}
		if c.Chance(85, "props") {
			s.Props = map[string]*Sch{}
			for i := c.atMost(0, 4, 16, "nprops"); i > 0; i-- {
				k := propName(c)
				if _, ok := s.Props[k]; ok {
					continue
				}
				p := genSch(c, d-1, o)
				if o.defaults && p.Ref == "" && p.Default == nil && c.Chance(40, "default") {
					p = p.withDefault(c)
				}
				s.PropNames = append(s.PropNames, k)
				s.Props[k] = p
				if c.Chance(25, "required") && p.Default == nil {
					s.Required = append(s.Required, k)
				}
			}
		}
		if c.Chance(5, "required-undescribed") {
			s.Required = append(s.Required, "b")
		}
		switch c.Int(0, 5, "additional") {
		case 0:
			s.Addl = 1
		case 1:
			s.Addl = 2
		case 2:
			s.Addl, s.AddlSch = 3, genSch(c, d-1, o)
		}
		return s
	}
}

// withDefault gives the schema a default that satisfies it.
func (s *Sch) withDefault(c *C) *Sch {
	r := *s
	v := r.good(c, 2)
	if v == nil || v.K == VNull || !r.valid(v) || hasFun(v) {
		return s
	}
	// a whole float would be read as an integer under "any"
	r.Default = v
	return &r
}

func hasFun(v *V) bool {
	switch v.K {
	case VLam, VType:
		return true
	case VList:
		for _, x := range v.L {
			if hasFun(x) {
				return true
			}
		}
	case VMap:
		for _, k := range v.M.keys {
			if hasFun(v.M.m[k]) {
				return true
			}
		}
	}
	return false
}

func bounds(c *C, s *Sch, lo float64) {
	if c.Chance(25, "big-bounds") {
		lo = pick(c, "big", 1<<53, 1e18, -1e18, 2147483647, -2147483648, 0)
	}
	frac := pick(c, "frac", 0.0, 0.0, 0.5, 0.25)
	hi := lo + float64(c.Int(0, 6, "span"))
	if c.Chance(35, "min") {
		s.Min = fp(lo + frac)
	}
	if c.Chance(35, "max") {
		s.Max = fp(hi + frac)
	}
	if c.Chance(20, "exmin") {
		s.ExMin = fp(lo - frac)
	}
	if c.Chance(20, "exmax") {
		s.ExMax = fp(hi + 1 - frac)
	}
}

// edges lists numbers around the bounds of a schema.
func (s *Sch) edges() []float64 {
	out := []float64{0, 1, -1, 2}
	for _, b := range []*float64{s.Min, s.Max, s.ExMin, s.ExMax} {
		if b != nil {
			out = append(out, *b, *b+1, *b-1, *b+0.5, *b-0.5, math.Floor(*b), math.Ceil(*b))
		}
	}
	if s.MultipleOf != nil {
		out = append(out, float64(*s.MultipleOf), float64(*s.MultipleOf*3), float64(*s.MultipleOf*2+1))
	}
	return out
}

// height is the number of levels of a schema, 0 where it refers to others.
func (s *Sch) height() int {
	if s == nil || s.Ref != "" {
		return 0
	}
	h := max(s.Items.height(), s.AddlSch.height())
	for _, x := range s.OneOf {
		h = max(h, x.height())
	}
	for _, x := range s.Props {
		h = max(h, x.height())
	}
	return h + 1
}

// good draws a value that satisfies the schema, if it can.
func (s *Sch) good(c *C, d int) *V {
	if d >= 2 { // where it is called from outside
		if h := s.height(); h > 5 {
			d = max(d, h)
		}
	}
	s = s.deref()
	try := func(n int, f func() *V) *V {
		var v *V
		for i := 0; i < n; i++ {
			if v = f(); s.valid(v) {
				return v
			}
		}
		return v
	}
	if s.OneOf != nil {
		return s.OneOf[c.Int(0, len(s.OneOf)-1, "alternative")].good(c, d)
	}
	switch s.Type {
	case "any":
		return genVal(c, min(d, 2), "any")
	case "null":
		return vNull()
	case "boolean":
		return vBool(c.Bool("b"))
	case "integer":
		return try(8, func() *V {
			e := s.edges()
			f := e[c.Int(0, len(e)-1, "edge")]
			if math.Abs(f) > 9e18 {
				return vInt(0)
			}
			if c.Chance(30, "any-int") {
				return vInt(genInt(c, "int"))
			}
			return vInt(int64(f))
		})
	case "float":
		return try(8, func() *V {
			e := s.edges()
			if c.Chance(30, "any-float") {
				return vFloat(genFloat(c, "float"))
			}
			return vFloat(e[c.Int(0, len(e)-1, "edge")])
		})
	case "string":
		if s.Format == "int-or-string" && c.Chance(40, "int") {
			return vInt(genInt(c, "int"))
		}
		return try(6, func() *V {
			n := c.Int(0, 7, "len")
			if c.Chance(20, "any-string") {
				return vStr(genStr(c, "s"))
			}
			return vStr(strings.Repeat(pick(c, "ch", "a", "é", "日", "😀", "1", " x"), n))
		})
	case "array":
		l := &V{K: VList}
		if d < -3 { // recursive schemas end somewhere
			return l
		}
		many := 40
		if d > 3 {
			many = 4
		}
		for i := c.atMost(0, 3, many, "len"); i > 0; i-- {
			if s.Items == nil {
				l.L = append(l.L, genVal(c, min(d, 1), "item"))
			} else {
				l.L = append(l.L, s.Items.good(c, d-1))
			}
		}
		return l
	case "object":
		m := newOMap()
		req := map[string]bool{}
		for _, r := range s.Required {
			req[r] = true
		}
		order := append([]string{}, s.PropNames...)
		if c.Bool("reverse") {
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		}
		for _, k := range order {
			if req[k] || d >= -3 && c.Chance(55, "present") {
				m.Set(k, s.Props[k].good(c, d-1))
			}
		}
		for _, r := range s.Required {
			if _, ok := m.Get(r); !ok {
				m.Set(r, vInt(1))
			}
		}
		if s.Addl >= 2 {
			for i := c.Int(0, 2, "extra"); i > 0; i-- {
				k := pick(c, "extra-key", "e1", "e2", "extra", "zz")
				if s.Addl == 3 {
					m.Set(k, s.AddlSch.good(c, d-1))
				} else {
					m.Set(k, genVal(c, 1, "extra"))
				}
			}
		}
		return vMap(m)
	case "function":
		l := &Lam{Env: newEnv()}
		ps := nList()
		for i, a := range s.Args {
			p := nStr(string(rune('p' + i)))
			if c.Bool("typed") {
				if t, ok := map[string]string{"integer": "int", "string": "string", "boolean": "bool"}[a.Type]; ok {
					p.Tag = "!" + t
					l.Params = append(l.Params, Param{p.S, builtinTypes[t]})
					ps.Items = append(ps.Items, p)
					continue
				}
			}
			l.Params = append(l.Params, Param{p.S, nil})
			ps.Items = append(ps.Items, p)
		}
		l.Body = nInt(1)
		l.Node = nCall("lambda", ps, l.Body)
		return &V{K: VLam, Lam: l}
	}
	return vNull()
}

// nearMiss changes one place of a value so that it may stop satisfying the schema.
func (s *Sch) nearMiss(c *C, v *V, d int) *V {
	s = s.deref()
	here := 12
	if s.height() > 5 {
		d, here = max(d, 4), 3
	}
	if s == nil || c.Chance(here, "here") || d <= 0 {
		return otherKind(c, v)
	}
	if s.OneOf != nil {
		return s.OneOf[c.Int(0, len(s.OneOf)-1, "alternative")].nearMiss(c, v, d-1)
	}
	switch {
	case s.Type == "integer" && v.K == VInt:
		e := s.edges()
		f := e[c.Int(0, len(e)-1, "edge")]
		if math.Abs(f) > 9e18 {
			return vInt(math.MaxInt64)
		}
		return pick(c, "int-miss", vInt(int64(f)), vInt(int64(f)), vFloat(f), vStr(vInt(int64(f)).String()))
	case s.Type == "float" && v.K == VFloat:
		e := s.edges()
		f := e[c.Int(0, len(e)-1, "edge")]
		return pick(c, "float-miss", vFloat(f), vFloat(f), vInt(int64(min(max(f, -1e15), 1e15))))
	case s.Type == "string" && v.K == VStr:
		n := utf8.RuneCountInString(v.S)
		switch c.Int(0, 3, "str-miss") {
		case 0:
			return vStr(v.S + "éé")
		case 1:
			if n > 0 {
				return vStr(string([]rune(v.S)[:n-1]))
			}
			return vInt(int64(n))
		case 2:
			return vStr("")
		default:
			return pick(c, "str-kind", vInt(int64(n)), vFloat(1.5), vBool(true), vNull())
		}
	case s.Type == "array" && v.K == VList && len(v.L) > 0 && s.Items != nil:
		r := vList(append([]*V{}, v.L...)...)
		i := c.Int(0, len(r.L)-1, "item")
		r.L[i] = s.Items.nearMiss(c, r.L[i], d-1)
		return r
	case s.Type == "object" && v.K == VMap:
		m := newOMap()
		for _, k := range v.M.keys {
			m.Set(k, v.M.m[k])
		}
		switch c.Int(0, 5, "obj-miss") {
		case 0:
			if len(s.Required) > 0 {
				m.Del(s.Required[c.Int(0, len(s.Required)-1, "drop")])
				break
			}
			fallthrough
		case 1:
			k := pick(c, "undescribed", "zzz", "A", "a ", "default")
			if _, ok := m.Get(k); !ok {
				m.Set(k, genVal(c, 1, "undescribed"))
			}
		case 2:
			if s.Addl == 3 {
				for _, k := range m.keys {
					if _, ok := s.Props[k]; !ok {
						m.Set(k, s.AddlSch.nearMiss(c, m.m[k], d-1))
						break
					}
				}
				break
			}
			fallthrough
		default:
			if len(m.keys) == 0 {
				return otherKind(c, v)
			}
			k := m.keys[c.Int(0, len(m.keys)-1, "at")]
			if p, ok := s.Props[k]; ok {
				m.Set(k, p.nearMiss(c, m.m[k], d-1))
			} else {
				m.Set(k, otherKind(c, m.m[k]))
			}
		}
		return vMap(m)
	case v.K == VLam:
		return pick(c, "fun-miss", vStr("+"), vNull(), lamOf(c, len(v.Lam.Params)+1), lamOf(c, len(v.Lam.Params)))
	}
	return otherKind(c, v)
}

func lamOf(c *C, n int) *V {
	l := &Lam{Env: newEnv(), Body: nInt(1)}
	ps := nList()
	for i := 0; i < n; i++ {
		p := nStr(string(rune('p' + i)))
		t := pick(c, "ptype", "", "int", "string", "bool")
		var s *Sch
		if t != "" {
			p.Tag = "!" + t
			s = builtinTypes[t]
		}
		l.Params = append(l.Params, Param{p.S, s})
		ps.Items = append(ps.Items, p)
	}
	l.Node = nCall("lambda", ps, l.Body)
	return &V{K: VLam, Lam: l}
}

func otherKind(c *C, v *V) *V {
	switch c.Int(0, 7, "other-kind") {
	case 0:
		return vNull()
	case 1:
		return vBool(true)
	case 2:
		return vInt(int64(c.Int(0, 9, "i")))
	case 3:
		return vFloat(2)
	case 4:
		return vStr(pick(c, "os", "", "1", "true", "x"))
	case 5:
		return vList()
	case 6:
		return vList(v)
	default:
		return vMapOf("a", v)
	}
}

// flowEmpty marks what has to be written in flow style.
func flowEmpty(n *N) *N {
	n.walk(func(x *N) {
		if x.K == NMap && len(x.Ents) == 0 || x.K == NList && len(x.Items) == 0 {
			x.Flow = true
		}
	})
	return n
}
