package checks

// Reference semantics of schemas.

import (
	"math"
	"sort"
	"unicode/utf8"
)

type Sch struct {
	Type, Format   string
	Required       []string
	PropNames      []string
	Props          map[string]*Sch
	Items          *Sch
	Addl           int // 0 absent, 1 false, 2 true, 3 schema
	AddlSch        *Sch
	Args           []*Sch
	HasArgs        bool
	Returns        *Sch
	Default        *V
	OneOf          []*Sch
	MultipleOf     *int64
	Min, Max       *float64
	ExMin, ExMax   *float64
	MinLen, MaxLen *int64
	PatchStrategy  string
	PatchMergeKey  string
	K8sNames       bool // spell the patch strategy as x-kubernetes-patch-...
	Ref            string
	RefTo          *Sch // what Ref stands for
}

func (s *Sch) deref() *Sch {
	for s != nil && s.Ref != "" {
		s = s.RefTo
	}
	return s
}

func (s *Sch) prop(k string) *Sch {
	if s == nil {
		return nil
	}
	return s.deref().Props[k].deref()
}

func num(f float64) *V {
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
		return vInt(int64(f))
	}
	return vFloat(f)
}

// value writes the schema as data.
func (s *Sch) value() *V {
	m := newOMap()
	if s.Ref != "" {
		m.Set("$ref", vStr(s.Ref))
		return vMap(m)
	}
	if s.Type != "" {
		m.Set("type", vStr(s.Type))
	}
	if s.Format != "" {
		m.Set("format", vStr(s.Format))
	}
	if s.Required != nil {
		l := &V{K: VList}
		for _, r := range s.Required {
			l.L = append(l.L, vStr(r))
		}
		m.Set("required", l)
	}
	if s.Props != nil {
		p := newOMap()
		for _, k := range s.PropNames {
			p.Set(k, s.Props[k].value())
		}
		m.Set("properties", vMap(p))
	}
	if s.Items != nil {
		m.Set("items", s.Items.value())
	}
	switch s.Addl {
	case 1:
		m.Set("additionalProperties", vBool(false))
	case 2:
		m.Set("additionalProperties", vBool(true))
	case 3:
		m.Set("additionalProperties", s.AddlSch.value())
	}
	if s.HasArgs {
		l := &V{K: VList}
		for _, a := range s.Args {
			l.L = append(l.L, a.value())
		}
		m.Set("arguments", l)
	}
	if s.Returns != nil {
		m.Set("returns", s.Returns.value())
	}
	if s.Default != nil {
		m.Set("default", s.Default)
	}
	if s.OneOf != nil {
		l := &V{K: VList}
		for _, a := range s.OneOf {
			l.L = append(l.L, a.value())
		}
		m.Set("oneOf", l)
	}
	seti := func(k string, p *int64) {
		if p != nil {
			m.Set(k, vInt(*p))
		}
	}
	setf := func(k string, p *float64) {
		if p != nil {
			m.Set(k, num(*p))
		}
	}
	seti("multipleOf", s.MultipleOf)
	setf("minimum", s.Min)
	setf("maximum", s.Max)
	setf("exclusiveMinimum", s.ExMin)
	setf("exclusiveMaximum", s.ExMax)
	seti("minLength", s.MinLen)
	seti("maxLength", s.MaxLen)
	pre := "patch"
	a, b := "patchStrategy", "patchMergeKey"
	if s.K8sNames {
		a, b = "x-kubernetes-patch-strategy", "x-kubernetes-patch-merge-key"
	}
	_ = pre
	if s.PatchStrategy != "" {
		m.Set(a, vStr(s.PatchStrategy))
	}
	if s.PatchMergeKey != "" {
		m.Set(b, vStr(s.PatchMergeKey))
	}
	return vMap(m)
}

// schemaOf reads data as a schema (only what the generators write).
func schemaOf(v *V) *Sch {
	s := &Sch{}
	get := func(k string) *V { x, _ := v.M.Get(k); return x }
	str := func(k string) string {
		if x := get(k); x != nil {
			return x.S
		}
		return ""
	}
	s.Ref, s.Type, s.Format = str("$ref"), str("type"), str("format")
	if x := get("required"); x != nil {
		s.Required = []string{}
		for _, r := range x.L {
			s.Required = append(s.Required, r.S)
		}
	}
	if x := get("properties"); x != nil {
		s.Props = map[string]*Sch{}
		for _, k := range x.M.keys {
			s.PropNames = append(s.PropNames, k)
			s.Props[k] = schemaOf(x.M.m[k])
		}
	}
	if x := get("items"); x != nil {
		s.Items = schemaOf(x)
	}
	if x := get("additionalProperties"); x != nil {
		switch {
		case x.K == VMap:
			s.Addl, s.AddlSch = 3, schemaOf(x)
		case x.B:
			s.Addl = 2
		default:
			s.Addl = 1
		}
	}
	if x := get("arguments"); x != nil {
		s.HasArgs = true
		for _, a := range x.L {
			s.Args = append(s.Args, schemaOf(a))
		}
	}
	if x := get("returns"); x != nil {
		s.Returns = schemaOf(x)
	}
	s.Default = get("default")
	if x := get("oneOf"); x != nil {
		s.OneOf = []*Sch{}
		for _, a := range x.L {
			s.OneOf = append(s.OneOf, schemaOf(a))
		}
	}
	i := func(k string) *int64 {
		if x := get(k); x != nil {
			n := x.I
			return &n
		}
		return nil
	}
	f := func(k string) *float64 {
		if x := get(k); x != nil {
			n := asFloat(x)
			return &n
		}
		return nil
	}
	s.MultipleOf, s.MinLen, s.MaxLen = i("multipleOf"), i("minLength"), i("maxLength")
	s.Min, s.Max, s.ExMin, s.ExMax = f("minimum"), f("maximum"), f("exclusiveMinimum"), f("exclusiveMaximum")
	s.PatchStrategy, s.PatchMergeKey = str("patchStrategy"), str("patchMergeKey")
	if s.PatchStrategy == "" {
		s.PatchStrategy = str("x-kubernetes-patch-strategy")
	}
	if s.PatchMergeKey == "" {
		s.PatchMergeKey = str("x-kubernetes-patch-merge-key")
	}
	return s
}

// valid decides whether a value satisfies the schema.
func (s *Sch) valid(v *V) bool {
	s = s.deref()
	if s == nil {
		return false
	}
	if s.OneOf != nil {
		for _, o := range s.OneOf {
			if o.valid(v) {
				return true
			}
		}
		return false
	}
	bounds := func() bool {
		c := func(f float64) int { r, _ := cmpNum(v, vFloat(f)); return r }
		return !(s.Min != nil && c(*s.Min) < 0 || s.Max != nil && c(*s.Max) > 0 ||
			s.ExMin != nil && c(*s.ExMin) <= 0 || s.ExMax != nil && c(*s.ExMax) >= 0)
	}
	switch s.Type {
	case "any":
		return true
	case "null":
		return v.K == VNull
	case "boolean":
		return v.K == VBool
	case "integer":
		return v.K == VInt && bounds() && (s.MultipleOf == nil || *s.MultipleOf != 0 && v.I%*s.MultipleOf == 0)
	case "float":
		return v.K == VFloat && bounds() && (s.MultipleOf == nil || math.Mod(v.F, float64(*s.MultipleOf)) == 0)
	case "string":
		if v.K == VInt && s.Format == "int-or-string" {
			return true
		}
		if v.K != VStr {
			return false
		}
		n := int64(utf8.RuneCountInString(v.S))
		return !(s.MinLen != nil && n < *s.MinLen || s.MaxLen != nil && n > *s.MaxLen)
	case "array":
		if v.K != VList {
			return false
		}
		if s.Items != nil {
			for _, x := range v.L {
				if !s.Items.valid(x) {
					return false
				}
			}
		}
		return true
	case "object":
		if v.K != VMap {
			return false
		}
		for _, r := range s.Required {
			if _, ok := v.M.Get(r); !ok {
				return false
			}
		}
		for _, k := range v.M.keys {
			x := v.M.m[k]
			if p, ok := s.Props[k]; ok {
				if !p.valid(x) {
					return false
				}
				continue
			}
			if k == "$schema" {
				continue
			}
			switch s.Addl {
			case 0, 1:
				return false
			case 3:
				if !s.AddlSch.valid(x) {
					return false
				}
			}
		}
		return true
	case "function":
		if v.K != VLam || len(v.Lam.Params) != len(s.Args) {
			return false
		}
		for i, a := range s.Args {
			if p := v.Lam.Params[i].Sch; p != nil && !a.equals(p) {
				return false
			}
		}
		return s.Returns == nil || v.Lam.Returns == nil || s.Returns.equals(v.Lam.Returns)
	}
	return false
}

func (s *Sch) equals(o *Sch) bool {
	if s.Type != o.Type {
		return false
	}
	switch s.Type {
	case "array":
		if s.Items == nil || o.Items == nil {
			return s.Items == o.Items
		}
		return s.Items.equals(o.Items)
	case "object":
		if len(s.Props) != len(o.Props) {
			return false
		}
		for k, p := range s.Props {
			q, ok := o.Props[k]
			if !ok || !p.equals(q) {
				return false
			}
		}
	case "function":
		if len(s.Args) != len(o.Args) {
			return false
		}
		for i, a := range s.Args {
			if !a.equals(o.Args[i]) {
				return false
			}
		}
		if s.Returns == nil || o.Returns == nil {
			return s.Returns == o.Returns
		}
		return s.Returns.equals(o.Returns)
	}
	return true
}

// asType makes the numbers of a default what the schema declares.
func (s *Sch) asType(v *V) *V {
	if s == nil {
		return v
	}
	c := *v
	switch {
	case v.K == VInt && s.Type == "float":
		return vFloat(float64(v.I))
	case v.K == VList:
		c.L = nil
		for _, x := range v.L {
			c.L = append(c.L, s.Items.asType(x))
		}
	case v.K == VMap:
		c.M = newOMap()
		for _, k := range v.M.keys {
			c.M.Set(k, s.Props[k].asType(v.M.m[k]))
		}
	}
	return &c
}

// fill fills in defaults; ok is false when the value has not the shape of the schema.
func (s *Sch) fill(v *V) (*V, bool) {
	if s == nil {
		return v, true
	}
	switch s.Type {
	case "array":
		if v.K != VList {
			return nil, false
		}
		if s.Items == nil {
			return v, true
		}
		r := *v
		r.L = nil
		for _, x := range v.L {
			y, ok := s.Items.fill(x)
			if !ok {
				return nil, false
			}
			r.L = append(r.L, y)
		}
		return &r, true
	case "object":
		if v.K != VMap {
			return nil, false
		}
		m := newOMap()
		for _, k := range v.M.keys {
			x := v.M.m[k]
			if p, ok := s.Props[k]; ok {
				if x, ok = p.fill(x); !ok {
					return nil, false
				}
			}
			m.Set(k, x)
		}
		names := append([]string{}, s.PropNames...)
		sort.Strings(names)
		for _, k := range names {
			if _, ok := m.Get(k); ok {
				continue
			}
			p := s.Props[k]
			for _, r := range s.Required {
				if r == k {
					return nil, false
				}
			}
			if p.Default != nil {
				d, ok := p.fill(sortKeys(p.asType(p.Default)))
				if !ok {
					return nil, false
				}
				m.Set(k, d)
			} else if p.Type == "object" {
				if d, ok := p.fill(vMap(newOMap())); ok && d.M.Len() > 0 {
					m.Set(k, d)
				}
			}
		}
		r := *v
		r.M = m
		return &r, true
	}
	return v, true
}

func (s *Sch) cast(v *V) (*V, bool) {
	f, ok := s.fill(v)
	if !ok || !s.valid(f) {
		return nil, false
	}
	c := *f
	c.Typ = s
	return &c, true
}
