package checks

// The ordered data model of the reference side: what a yisp value is,
// independent of the representation the code under test uses.

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

type VK int

const (
	VNull VK = iota
	VBool
	VInt
	VFloat
	VStr
	VList
	VMap
	VLam
	VType
)

func (k VK) String() string {
	return [...]string{"null", "bool", "int", "float", "string", "list", "map", "lambda", "type"}[k]
}

type V struct {
	K   VK
	B   bool
	I   int64
	F   float64
	S   string
	L   []*V
	M   *OMap
	Lam *Lam
	Sch *Sch
	Doc bool // a list of top-level documents
	Typ *Sch // the declared type the value was cast to
}

// OMap is an insertion-ordered string map.
type OMap struct {
	keys []string
	m    map[string]*V
}

func newOMap() *OMap { return &OMap{m: map[string]*V{}} }
func (o *OMap) Set(k string, v *V) {
	if _, ok := o.m[k]; !ok {
		o.keys = append(o.keys, k)
	}
	o.m[k] = v
}
func (o *OMap) Get(k string) (*V, bool) { v, ok := o.m[k]; return v, ok }
func (o *OMap) Del(k string) {
	if _, ok := o.m[k]; !ok {
		return
	}
	delete(o.m, k)
	for i, x := range o.keys {
		if x == k {
			o.keys = append(append([]string{}, o.keys[:i]...), o.keys[i+1:]...)
			return
		}
	}
}
func (o *OMap) Len() int { return len(o.keys) }

func vNull() *V           { return &V{K: VNull} }
func vBool(b bool) *V     { return &V{K: VBool, B: b} }
func vInt(i int64) *V     { return &V{K: VInt, I: i} }
func vFloat(f float64) *V { return &V{K: VFloat, F: f} }
func vStr(s string) *V    { return &V{K: VStr, S: s} }
func vList(l ...*V) *V    { return &V{K: VList, L: l} }
func vMapOf(kv ...any) *V {
	m := newOMap()
	for i := 0; i+1 < len(kv); i += 2 {
		m.Set(kv[i].(string), kv[i+1].(*V))
	}
	return &V{K: VMap, M: m}
}
func vMap(m *OMap) *V { return &V{K: VMap, M: m} }

func (v *V) copyShallow() *V { c := *v; return &c }

func (v *V) clone() *V {
	c := *v
	switch v.K {
	case VList:
		c.L = make([]*V, len(v.L))
		for i, x := range v.L {
			c.L[i] = x.clone()
		}
	case VMap:
		c.M = newOMap()
		for _, k := range v.M.keys {
			c.M.Set(k, v.M.m[k].clone())
		}
	}
	return &c
}

// same reports whether two values are identical data: same types, same order of keys.
func same(a, b *V) bool { return diff(a, b, "", true) == "" }

// sameUnordered ignores the order of keys.
func sameUnordered(a, b *V) bool { return diff(a, b, "", false) == "" }

// diff describes the first difference ("" if none).
func diff(want, got *V, path string, ordered bool) string {
	if path == "" {
		path = "."
	}
	if want == nil || got == nil {
		if want == got {
			return ""
		}
		return fmt.Sprintf("%s: want %v, got %v", path, want, got)
	}
	if want.K != got.K {
		return fmt.Sprintf("%s: want %s, got %s", path, want.short(), got.short())
	}
	switch want.K {
	case VBool:
		if want.B != got.B {
			return fmt.Sprintf("%s: want %s, got %s", path, want.short(), got.short())
		}
	case VInt:
		if want.I != got.I {
			return fmt.Sprintf("%s: want %s, got %s", path, want.short(), got.short())
		}
	case VFloat:
		if want.F != got.F && !(math.IsNaN(want.F) && math.IsNaN(got.F)) {
			return fmt.Sprintf("%s: want %s, got %s", path, want.short(), got.short())
		}
	case VStr:
		if want.S != got.S {
			return fmt.Sprintf("%s: want %s, got %s", path, want.short(), got.short())
		}
	case VList:
		for i := 0; i < len(want.L) && i < len(got.L); i++ {
			if d := diff(want.L[i], got.L[i], fmt.Sprintf("%s[%d]", path, i), ordered); d != "" {
				return d
			}
		}
		if len(want.L) != len(got.L) {
			return fmt.Sprintf("%s: want %d items, got %d: want %s got %s", path, len(want.L), len(got.L), want.short(), got.short())
		}
	case VMap:
		for _, k := range want.M.keys {
			g, ok := got.M.Get(k)
			if !ok {
				return fmt.Sprintf("%s: key %q missing", path, k)
			}
			if d := diff(want.M.m[k], g, fmt.Sprintf("%s.%q", path, k), ordered); d != "" {
				return d
			}
		}
		if want.M.Len() != got.M.Len() {
			for _, k := range got.M.keys {
				if _, ok := want.M.Get(k); !ok {
					return fmt.Sprintf("%s: unexpected key %q", path, k)
				}
			}
		}
		if ordered {
			for i, k := range want.M.keys {
				if got.M.keys[i] != k {
					return fmt.Sprintf("%s: key order: want %q, got %q", path, want.M.keys, got.M.keys)
				}
			}
		}
	}
	return ""
}

func diffDocs(want, got []*V, ordered bool) string {
	for i := 0; i < len(want) && i < len(got); i++ {
		if d := diff(want[i], got[i], fmt.Sprintf("doc%d", i), ordered); d != "" {
			return d
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("want %d documents, got %d", len(want), len(got))
	}
	return ""
}

func (v *V) short() string {
	s := v.String()
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return v.K.String() + " " + s
}

func (v *V) String() string {
	if v == nil {
		return "<nil>"
	}
	switch v.K {
	case VNull:
		return "null"
	case VBool:
		return strconv.FormatBool(v.B)
	case VInt:
		return strconv.FormatInt(v.I, 10)
	case VFloat:
		return "f" + strconv.FormatFloat(v.F, 'g', -1, 64)
	case VStr:
		return strconv.Quote(v.S)
	case VList:
		p := make([]string, len(v.L))
		for i, x := range v.L {
			p[i] = x.String()
		}
		return "[" + strings.Join(p, ", ") + "]"
	case VMap:
		p := make([]string, len(v.M.keys))
		for i, k := range v.M.keys {
			p[i] = strconv.Quote(k) + ": " + v.M.m[k].String()
		}
		return "{" + strings.Join(p, ", ") + "}"
	case VLam:
		return "(lambda)"
	}
	return "(type)"
}

// visible leaves out functions and types, which are not part of the output data.
func visible(v *V) *V {
	switch v.K {
	case VLam, VType:
		return nil
	case VList:
		r := &V{K: VList}
		for _, x := range v.L {
			if y := visible(x); y != nil {
				r.L = append(r.L, y)
			}
		}
		return r
	case VMap:
		r := newOMap()
		for _, k := range v.M.keys {
			if y := visible(v.M.m[k]); y != nil {
				r.Set(k, y)
			}
		}
		return vMap(r)
	}
	return v
}

func visibleDocs(docs []*V) []*V {
	var r []*V
	for _, d := range docs {
		if v := visible(d); v != nil {
			r = append(r, v)
		}
	}
	return r
}

// depth and size measures for statistics
func (v *V) size() int {
	n := 1
	switch v.K {
	case VList:
		for _, x := range v.L {
			n += x.size()
		}
	case VMap:
		for _, k := range v.M.keys {
			n += v.M.m[k].size()
		}
	}
	return n
}

func (v *V) depth() int {
	d := 0
	switch v.K {
	case VList:
		for _, x := range v.L {
			d = max(d, x.depth())
		}
	case VMap:
		for _, k := range v.M.keys {
			d = max(d, v.M.m[k].depth())
		}
	default:
		return 0
	}
	return d + 1
}

// readYAML reads YAML text with the upstream library into ordered values.
// strict: merge keys, aliases and repeated keys are errors (the engine must not emit them).
func readYAML(text string) ([]*V, error) { return readYAMLOpt(text, true) }

func readYAMLOpt(text string, strict bool) ([]*V, error) {
	nodes, err := readNodes(text)
	if err != nil {
		return nil, err
	}
	var docs []*V
	for _, n := range nodes {
		v, err := fromNode(n, strict)
		if err != nil {
			return nil, err
		}
		docs = append(docs, v)
	}
	return docs, nil
}

func readNodes(text string) ([]*yaml.Node, error) {
	dec := yaml.NewDecoder(strings.NewReader(text))
	var out []*yaml.Node
	for {
		var n yaml.Node
		err := dec.Decode(&n)
		if errors.Is(err, io.EOF) {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		if n.Kind == yaml.DocumentNode && len(n.Content) == 1 {
			out = append(out, n.Content[0])
		} else {
			out = append(out, &n)
		}
	}
}

func fromNode(n *yaml.Node, strict bool) (*V, error) {
	switch n.Kind {
	case yaml.ScalarNode:
		return scalarOf(n)
	case yaml.SequenceNode:
		l := &V{K: VList}
		for _, c := range n.Content {
			v, err := fromNode(c, strict)
			if err != nil {
				return nil, err
			}
			l.L = append(l.L, v)
		}
		return l, nil
	case yaml.MappingNode:
		m := newOMap()
		for i := 0; i < len(n.Content); i += 2 {
			k := n.Content[i]
			if k.Kind != yaml.ScalarNode {
				return nil, fmt.Errorf("line %d: key is not a scalar", k.Line)
			}
			if strict && k.Tag == "!!merge" {
				return nil, fmt.Errorf("line %d: merge key in the output", k.Line)
			}
			v, err := fromNode(n.Content[i+1], strict)
			if err != nil {
				return nil, err
			}
			if _, dup := m.Get(k.Value); dup && strict {
				return nil, fmt.Errorf("line %d: repeated key %q", k.Line, k.Value)
			}
			m.Set(k.Value, v)
		}
		return vMap(m), nil
	case yaml.AliasNode:
		if strict {
			return nil, fmt.Errorf("line %d: alias in the output", n.Line)
		}
		return fromNode(n.Alias, strict)
	}
	return nil, fmt.Errorf("line %d: unexpected node kind %d", n.Line, n.Kind)
}

func scalarOf(n *yaml.Node) (*V, error) {
	switch n.ShortTag() {
	case "!!null":
		return vNull(), nil
	case "!!bool":
		var b bool
		if err := n.Decode(&b); err != nil {
			return nil, err
		}
		return vBool(b), nil
	case "!!int":
		var i int64
		if err := n.Decode(&i); err != nil {
			return nil, fmt.Errorf("line %d: integer %q: %v", n.Line, n.Value, err)
		}
		return vInt(i), nil
	case "!!float":
		var f float64
		if err := n.Decode(&f); err != nil {
			return nil, err
		}
		return vFloat(f), nil
	case "!!str", "!!timestamp", "!!merge":
		return vStr(n.Value), nil
	}
	return nil, fmt.Errorf("line %d: unexpected tag %s", n.Line, n.ShortTag())
}

// native converts to what encoding/json or a host program would use.
func (v *V) native() any {
	switch v.K {
	case VBool:
		return v.B
	case VInt:
		return int(v.I)
	case VFloat:
		return v.F
	case VStr:
		return v.S
	case VList:
		l := make([]any, len(v.L))
		for i, x := range v.L {
			l[i] = x.native()
		}
		return l
	case VMap:
		m := map[string]any{}
		for _, k := range v.M.keys {
			m[k] = v.M.m[k].native()
		}
		return m
	}
	return nil
}

// sortKeys returns the value with the keys of every map sorted (the order of plain data).
func sortKeys(v *V) *V {
	switch v.K {
	case VList:
		r := v.copyShallow()
		r.L = make([]*V, len(v.L))
		for i, x := range v.L {
			r.L[i] = sortKeys(x)
		}
		return r
	case VMap:
		ks := append([]string{}, v.M.keys...)
		sort.Strings(ks)
		m := newOMap()
		for _, k := range ks {
			m.Set(k, sortKeys(v.M.m[k]))
		}
		r := v.copyShallow()
		r.M = m
		return r
	}
	return v
}

// cmpNum compares two numbers exactly; ok is false when one of them is NaN.
func cmpNum(a, b *V) (int, bool) {
	x, ok1 := bigOf(a)
	y, ok2 := bigOf(b)
	if !ok1 || !ok2 {
		return 0, false
	}
	if x == nil || y == nil { // infinities
		fx, fy := asFloat(a), asFloat(b)
		switch {
		case fx < fy:
			return -1, true
		case fx > fy:
			return 1, true
		}
		return 0, true
	}
	return x.Cmp(y), true
}

func asFloat(v *V) float64 {
	if v.K == VInt {
		return float64(v.I)
	}
	return v.F
}

func bigOf(v *V) (*big.Rat, bool) {
	if v.K == VInt {
		return new(big.Rat).SetInt64(v.I), true
	}
	if math.IsNaN(v.F) {
		return nil, false
	}
	if math.IsInf(v.F, 0) {
		return nil, true
	}
	return new(big.Rat).SetFloat64(v.F), true
}

// dataEqual is ==: structural, numbers by value, key order irrelevant.
func dataEqual(a, b *V) bool {
	if (a.K == VInt || a.K == VFloat) && (b.K == VInt || b.K == VFloat) {
		c, ok := cmpNum(a, b)
		return ok && c == 0
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case VNull:
		return true
	case VBool:
		return a.B == b.B
	case VStr:
		return a.S == b.S
	case VList:
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !dataEqual(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	case VMap:
		if a.M.Len() != b.M.Len() {
			return false
		}
		for _, k := range a.M.keys {
			o, ok := b.M.Get(k)
			if !ok || !dataEqual(a.M.m[k], o) {
				return false
			}
		}
		return true
	case VLam:
		return a.Lam == b.Lam
	}
	return a.Sch == b.Sch
}

func truthy(v *V) bool {
	switch v.K {
	case VNull:
		return false
	case VBool:
		return v.B
	case VInt:
		return v.I != 0
	case VFloat:
		return v.F != 0
	case VStr:
		return v.S != ""
	case VList:
		return len(v.L) > 0
	case VMap:
		return v.M.Len() > 0
	}
	return true
}

// nodeDiff compares node trees by kind, tag and value of scalars (keys included).
func nodeDiff(a, b []*yaml.Node) string {
	if len(a) != len(b) {
		return fmt.Sprintf("want %d nodes, got %d", len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Kind != y.Kind || x.ShortTag() != y.ShortTag() && !(isStrTag(x.ShortTag()) && isStrTag(y.ShortTag())) {
			return fmt.Sprintf("line %d %q: want kind %d tag %s, got kind %d tag %s value %q", x.Line, x.Value, x.Kind, x.ShortTag(), y.Kind, y.ShortTag(), y.Value)
		}
		if x.Kind == yaml.ScalarNode && x.ShortTag() == "!!str" && x.Value != y.Value {
			return fmt.Sprintf("line %d: want %q, got %q", x.Line, x.Value, y.Value)
		}
		if x.Kind == yaml.ScalarNode && x.Value != y.Value {
			vx, e1 := scalarOf(x)
			vy, e2 := scalarOf(y)
			if e1 != nil || e2 != nil || !same(vx, vy) {
				return fmt.Sprintf("line %d: want %q, got %q", x.Line, x.Value, y.Value)
			}
		}
		if d := nodeDiff(x.Content, y.Content); d != "" {
			return d
		}
	}
	return ""
}

func isStrTag(t string) bool { return t == "!!str" || t == "!!timestamp" }
