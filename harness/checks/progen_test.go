package checks

// A generator of whole programs: typed, so that most of them run, with injected mistakes.

import (
	"fmt"
	"strings"
)

type TK int

const (
	TInt TK = iota
	TFloat
	TStr
	TBool
	TNull
	TList
	TMap
	TFun
)

type Ty struct {
	K      TK
	El     *Ty
	Fields []string
	FT     map[string]*Ty
	Args   []*Ty
	Ret    *Ty
}

func (t *Ty) eq(o *Ty) bool {
	if t.K != o.K {
		return false
	}
	switch t.K {
	case TList:
		return t.El.eq(o.El)
	case TMap:
		if len(t.Fields) != len(o.Fields) {
			return false
		}
		for _, f := range t.Fields {
			u, ok := o.FT[f]
			if !ok || !t.FT[f].eq(u) {
				return false
			}
		}
	case TFun:
		if len(t.Args) != len(o.Args) || !t.Ret.eq(o.Ret) {
			return false
		}
		for i := range t.Args {
			if !t.Args[i].eq(o.Args[i]) {
				return false
			}
		}
	}
	return true
}

var (
	tInt  = &Ty{K: TInt}
	tStr  = &Ty{K: TStr}
	tBool = &Ty{K: TBool}
	tNull = &Ty{K: TNull}
	tFlt  = &Ty{K: TFloat}
)

func tList(el *Ty) *Ty              { return &Ty{K: TList, El: el} }
func tFun(ret *Ty, args ...*Ty) *Ty { return &Ty{K: TFun, Args: args, Ret: ret} }
func tMap(kv ...any) *Ty {
	t := &Ty{K: TMap, FT: map[string]*Ty{}}
	for i := 0; i < len(kv); i += 2 {
		t.Fields = append(t.Fields, kv[i].(string))
		t.FT[kv[i].(string)] = kv[i+1].(*Ty)
	}
	return t
}

type gvar struct {
	name string
	ty   *Ty
}

// gen draws expressions; percentages steer what a check is about.
type gen struct {
	c        *C
	vars     []gvar
	errs     int // per mille of injected mistakes
	anchors  int // % of nodes that define a variable
	merges   int // % of maps written with merge keys
	tags     int // % of redundant or mode-changing tags
	optional int // % of path references with optional steps
	typed    int // % of typed parameters
	funs     int // % bias towards functions
	inFn     int
	n        int
	left     int                            // nodes that may still be drawn
	hook     func(g *gen, ty *Ty, d int) *N // sometimes wraps or replaces an expression
	noDup    bool
	names    []string // names of variables, of parameters
	pnames   []string
	redef    int  // % of reuse of a taken name
	ints     bool // data are integers only
}

func newGen(c *C) *gen {
	return &gen{c: c, anchors: 7, merges: 12, tags: 15, optional: 20, typed: 15, funs: 10, left: 180, names: globalNames, pnames: paramNames, redef: 30}
}

var globalNames = []string{"a", "b", "x", "y", "foo", "n", "data", "f", "g", "item-1", "v_2", "name"}
var paramNames = []string{"x", "y", "a", "n", "f", "acc", "p", "b"}

func (g *gen) fresh() string {
	for i := 0; i < 4; i++ {
		n := g.names[g.c.Int(0, len(g.names)-1, "name")]
		if g.find(n) == nil || g.c.Chance(g.redef, "redefine") {
			return n
		}
	}
	g.n++
	return fmt.Sprintf("q%d", g.n)
}

func (g *gen) find(name string) *gvar {
	for i := len(g.vars) - 1; i >= 0; i-- {
		if g.vars[i].name == name {
			return &g.vars[i]
		}
	}
	return nil
}

func (g *gen) define(name string, ty *Ty) { g.vars = append(g.vars, gvar{name, ty}) }

// paths lists the references that have the type.
func (g *gen) paths(ty *Ty) []string {
	var out []string
	seen := map[string]bool{}
	for i := len(g.vars) - 1; i >= 0 && len(out) < 24; i-- {
		v := g.vars[i]
		if seen[v.name] {
			continue
		}
		seen[v.name] = true
		g.sub(v.name, v.ty, ty, 3, &out)
	}
	return out
}

func (g *gen) sub(p string, have, want *Ty, d int, out *[]string) {
	if have.eq(want) {
		*out = append(*out, p)
	}
	if have.K == TMap && d > 0 {
		for _, f := range have.Fields {
			if isStep(f) {
				g.sub(p+"."+f, have.FT[f], want, d-1, out)
			}
		}
	}
}

func isStep(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_') {
			return false
		}
	}
	return true
}

// genTy draws the type of a data value.
func (g *gen) genTy(d int) *Ty {
	if g.ints {
		return tInt
	}
	if len(g.vars) > 0 && g.c.Chance(45, "ty-of-var") {
		if t := g.vars[len(g.vars)-1-g.c.Int(0, min(5, len(g.vars)-1), "var")].ty; t.K != TFun {
			return t
		}
	}
	k := g.c.Int(0, 9, "ty")
	if d <= 0 && k > 5 {
		k -= 5
	}
	switch k {
	case 0, 1:
		return tInt
	case 2, 3:
		return tStr
	case 4:
		return tBool
	case 5:
		return pick(g.c, "ty-rare", tNull, tFlt, tInt)
	case 6, 7:
		return tList(g.genTy(d - 1))
	default:
		t := &Ty{K: TMap, FT: map[string]*Ty{}}
		n := g.c.Int(0, 3, "fields")
		for i := 0; i < n; i++ {
			f := genKey(g.c, "field")
			if f == "<<" || f == "apiVersion" || f == "kind" || f == "$schema" {
				f = "k"
			}
			if _, ok := t.FT[f]; ok {
				continue
			}
			t.Fields = append(t.Fields, f)
			t.FT[f] = g.genTy(d - 1)
		}
		return t
	}
}

func (g *gen) scalar(ty *Ty) *N {
	var n *N
	switch ty.K {
	case TInt:
		n = nInt(int64(g.c.Int(-9, 30, "int")))
		if g.c.Chance(10, "big") {
			n = nInt(genInt(g.c, "bigint"))
		}
	case TFloat:
		n = nFloat(genFloat(g.c, "float"))
	case TStr:
		if g.c.Chance(75, "word") {
			n = nStr(words[g.c.Int(0, len(words)-1, "word")])
		} else {
			n = nStr(genStr(g.c, "str"))
		}
	case TBool:
		n = nBool(g.c.Bool("bool"))
	default:
		n = nNull()
	}
	return n
}

func (g *gen) leaf(ty *Ty, q bool) *N {
	if ps := g.paths(ty); len(ps) > 0 && g.c.Chance(90, "leaf-ref") {
		return g.ref(ps[g.c.Int(0, len(ps)-1, "which-ref")])
	}
	switch ty.K {
	case TList:
		n := nList()
		if g.c.Bool("one") {
			n.Items = append(n.Items, g.leaf(ty.El, true))
			if !q || g.c.Chance(g.tags, "tag") {
				n.Tag = "!quote"
			}
		}
		return n
	case TMap:
		n := &N{K: NMap}
		for _, f := range ty.Fields {
			n.Ents = append(n.Ents, &Ent{Key: f, Val: g.leaf(ty.FT[f], q)})
		}
		return n
	case TFun:
		return g.lambda(ty, 0, q)
	}
	return g.scalar(ty)
}

func (g *gen) ref(p string) *N {
	if g.c.Chance(g.optional, "opt") {
		segs := strings.Split(p, ".")
		for i := range segs {
			if g.c.Bool("opt-step") {
				segs[i] += "?"
			}
		}
		p = strings.Join(segs, ".")
	}
	return nRef(p)
}

// wrap marks a call for evaluation where its surroundings are data.
func (g *gen) mode(n *N, q bool) *N {
	if q || g.c.Chance(g.tags/2, "tag-yisp") {
		n.Tag = "!yisp"
	}
	return n
}

// expr draws an expression of the type; q: its surroundings are data (quote mode).
func (g *gen) expr(ty *Ty, d int, q bool) *N {
	g.left--
	if g.left < 0 {
		d = 0
	}
	if g.errs > 0 && g.c.Int(0, 999, "err") >= 1000-g.errs {
		return g.bad(ty, d, q)
	}
	if g.hook != nil {
		if n := g.hook(g, ty, d); n != nil {
			return g.mode(n, q)
		}
	}
	if d <= 0 {
		return g.leaf(ty, q)
	}
	k := g.c.Int(0, 99, "form")
	var n *N
	switch {
	case k < 8:
		n = g.leaf(ty, q)
	case k < 26:
		n = g.literal(ty, d, q)
	case k < 58 && ty.K != TFun:
		if call := g.op(ty, d); call != nil {
			n = g.mode(call, q)
		}
	}
	if n == nil {
		n = g.mode(g.general(ty, d), q)
	}
	if n.K != NRef && n.Anchor == "" && g.c.Chance(g.anchors, "anchor") {
		name := g.fresh()
		n.Anchor = name
		g.define(name, ty)
	}
	return n
}

func (g *gen) literal(ty *Ty, d int, q bool) *N {
	switch ty.K {
	case TList:
		n := &N{K: NList}
		cnt := genLen(g.c, "len")
		if cnt > 6 {
			cnt = 6
		}
		for i := 0; i < cnt; i++ {
			n.Items = append(n.Items, g.expr(ty.El, d-1, true))
		}
		if !q && cnt > 0 || g.c.Chance(g.tags, "tag") {
			n.Tag = "!quote"
		}
		return n
	case TMap:
		return g.mapLit(ty, d, q)
	case TFun:
		return g.lambda(ty, d, q)
	}
	n := g.scalar(ty)
	respell(g.c, n)
	return n
}

func (g *gen) mapLit(ty *Ty, d int, q bool) *N {
	n := &N{K: NMap}
	if g.c.Chance(g.tags, "tag") {
		q = g.c.Bool("to-quote")
		n.Tag = "!yisp"
		if q {
			n.Tag = "!quote"
		}
	}
	i := 0
	for i < len(ty.Fields) {
		if g.c.Chance(g.merges, "merge") { // some fields through a merge key
			j := g.c.Int(i, len(ty.Fields), "merge-upto")
			part := &Ty{K: TMap, FT: map[string]*Ty{}}
			for _, f := range ty.Fields[i:j] {
				part.Fields = append(part.Fields, f)
				part.FT[f] = ty.FT[f]
			}
			if i > 0 && g.c.Chance(30, "again") { // overlap with an earlier one
				f := ty.Fields[g.c.Int(0, i-1, "overlap")]
				part.Fields = append(part.Fields, f)
				part.FT[f] = ty.FT[f]
			}
			var v *N
			switch g.c.Int(0, 5, "merge-form") {
			case 0: // a list of maps
				v = &N{K: NList}
				if !q {
					v.Tag = "!quote"
				}
				if len(part.Fields) > 1 && g.c.Bool("split") {
					h := len(part.Fields) / 2
					p1 := &Ty{K: TMap, FT: part.FT, Fields: part.Fields[:h]}
					p2 := &Ty{K: TMap, FT: part.FT, Fields: part.Fields[h:]}
					v.Items = append(v.Items, g.expr(p1, d-1, true), g.expr(p2, d-1, true))
				} else {
					v.Items = append(v.Items, g.expr(part, d-1, true))
				}
			default:
				v = g.expr(part, d-1, q)
			}
			n.Ents = append(n.Ents, &Ent{Merge: true, Val: v})
			i = j
			if len(n.Ents) > 12 {
				break
			}
			continue
		}
		f := ty.Fields[i]
		n.Ents = append(n.Ents, &Ent{Key: f, Val: g.expr(ty.FT[f], d-1, q)})
		i++
	}
	for ; i < len(ty.Fields); i++ {
		f := ty.Fields[i]
		n.Ents = append(n.Ents, &Ent{Key: f, Val: g.expr(ty.FT[f], d-1, q)})
	}
	if g.c.Chance(g.merges/3, "merge-null") {
		n.Ents = append(n.Ents, &Ent{Merge: true, Val: g.expr(tNull, 1, q)})
	}
	return n
}

// params draws parameter names for a function type.
func (g *gen) params(ty *Ty) (*N, []gvar) {
	ps := &N{K: NList, Flow: true}
	var vs []gvar
	used := map[string]bool{}
	for _, a := range ty.Args {
		name := g.pnames[g.c.Int(0, len(g.pnames)-1, "param")]
		if used[name] {
			g.n++
			name = fmt.Sprintf("p%d", g.n)
		}
		used[name] = true
		p := nStr(name)
		if g.c.Chance(g.typed, "typed") {
			switch a.K {
			case TInt:
				p.Tag = "!int"
			case TStr:
				p.Tag = "!string"
			case TBool:
				p.Tag = "!bool"
			case TFloat:
				p.Tag = "!float"
			case TNull:
				p.Tag = "!null"
			}
		}
		ps.Items = append(ps.Items, p)
		vs = append(vs, gvar{name, a})
	}
	return ps, vs
}

func (g *gen) lambda(ty *Ty, d int, q bool) *N {
	if op := opFor(g.c, ty); op != "" && g.c.Chance(25, "op-name") {
		return nStr(op)
	}
	ps, vs := g.params(ty)
	keep := len(g.vars)
	g.vars = append(g.vars, vs...)
	g.inFn++
	body := g.expr(ty.Ret, d-1, false)
	g.inFn--
	g.vars = g.vars[:keep]
	return g.mode(nCall("lambda", ps, body), q)
}

// opFor names an operator of a function type.
func opFor(c *C, ty *Ty) string {
	sig := func(ret *Ty, args ...*Ty) bool { return ty.eq(tFun(ret, args...)) }
	switch {
	case sig(tInt, tInt):
		return pick(c, "op1", "+", "*", "-", "progn")
	case sig(tInt, tInt, tInt):
		return pick(c, "op2", "+", "-", "*", "add", "progn")
	case sig(tBool, tInt, tInt):
		return pick(c, "op3", "<", "<=", ">", ">=", "==", "!=")
	case sig(tStr, tStr):
		return pick(c, "op4", "strings.toUpper", "strings.toLower", "strings.trim", "strings.concat", "strings.sha256", "progn")
	case sig(tStr, tStr, tStr):
		return pick(c, "op5", "strings.concat", "??")
	case sig(tBool, tStr, tStr):
		return pick(c, "op6", "strings.contains", "==", "!=", "and", "or")
	case sig(tBool, tBool):
		return pick(c, "op7", "not", "!", "and", "or")
	case sig(tBool, tBool, tBool):
		return pick(c, "op8", "and", "or", "&&", "||", "==")
	case len(ty.Args) == 1 && ty.Args[0].K == TList && ty.Ret.K == TInt:
		return "lists.length"
	case len(ty.Args) == 1 && ty.Ret.eq(ty.Args[0]):
		return pick(c, "op9", "progn", "default")
	case len(ty.Args) == 1 && ty.Ret.K == TBool:
		return "not"
	case len(ty.Args) == 1 && ty.Ret.K == TStr:
		return "types.of"
	}
	return ""
}

func (g *gen) call(op string, args ...*N) *N {
	n := nCall(op, args...)
	if g.c.Chance(8, "quote-op") {
		n.Items[0].Q = 'd'
	}
	return n
}

// general draws one of the forms that can have any type.
func (g *gen) general(ty *Ty, d int) *N {
	k := g.c.Int(0, 99, "general")
	k = max(0, k-g.funs)
	switch {
	case k < 8: // a function that is in scope
		if n := g.callVar(ty, d); n != nil {
			return n
		}
		fallthrough
	case k < 26: // immediately applied lambda
		t := tFun(ty)
		for i := g.c.Int(0, 3, "nargs"); i > 0; i-- {
			if g.c.Bool("same") {
				t.Args = append(t.Args, ty)
				continue
			}
			t.Args = append(t.Args, g.argTy(d))
		}
		f := g.lambda(t, d, false)
		n := &N{K: NList, Items: []*N{f}}
		for _, a := range t.Args {
			n.Items = append(n.Items, g.expr(a, d-1, false))
		}
		return n
	case k < 44:
		cond := g.expr(g.condTy(), d-1, false)
		keep := len(g.vars)
		a := g.expr(ty, d-1, false)
		g.vars = g.vars[:keep]
		b := g.expr(ty, d-1, false)
		g.vars = g.vars[:keep]
		return nCall("if", cond, a, b)
	case k < 56:
		n := &N{K: NList, Items: []*N{nStr("progn")}}
		for i := g.c.Int(0, 2, "seq"); i > 0; i-- {
			e := g.expr(g.genTy(1), d-1, false)
			if e.K != NRef && e.Anchor == "" && g.c.Chance(60, "let") {
				continue // only definitions are interesting here
			}
			n.Items = append(n.Items, e)
		}
		if g.c.Chance(60, "let") {
			t := g.argTy(d)
			if g.c.Bool("same") {
				t = ty
			}
			e := g.expr(t, d-1, false)
			if e.K == NRef {
				e = nCall("progn", e)
			}
			if e.Anchor == "" {
				e.Anchor = g.fresh()
				g.define(e.Anchor, t)
			}
			n.Items = append(n.Items, e)
		}
		n.Items = append(n.Items, g.expr(ty, d-1, false))
		return n
	case k < 64:
		n := &N{K: NList, Items: []*N{nStr("pipeline")}}
		t := g.argTy(1)
		n.Items = append(n.Items, g.expr(t, d-1, false))
		for i := g.c.Int(0, 2, "stages"); i > 0; i-- {
			u := g.argTy(1)
			n.Items = append(n.Items, g.expr(tFun(u, t), d-1, false))
			t = u
		}
		if !t.eq(ty) {
			n.Items = append(n.Items, g.expr(tFun(ty, t), d-1, false))
		}
		return n
	case k < 72:
		a := g.expr(ty, d-1, false)
		if g.c.Bool("null-first") {
			return g.call(pick(g.c, "dflt", "??", "default"), g.nullish(d), a)
		}
		return g.call(pick(g.c, "dflt", "??", "default"), a, g.expr(ty, d-1, false))
	case k < 80:
		l := g.nonEmpty(ty, d)
		if g.c.Bool("at") {
			return g.call("lists.at", l, nInt(0))
		}
		return g.call("lists.car", l)
	case k < 86:
		f := simpleKey(g.c, "get")
		m := tMap(f, ty)
		if g.c.Bool("more") && f != "z" {
			m.Fields = append(m.Fields, "z")
			m.FT["z"] = tInt
		}
		key := nStr(f)
		return g.call("maps.get", g.expr(m, d-1, false), key)
	case k < 92 && ty.K != TFun:
		return g.call("lists.reduce", g.nonEmpty(ty, d), g.expr(tFun(ty, ty, ty), d-1, false))
	default:
		return nCall("progn", g.expr(ty, d-1, false))
	}
}

func (g *gen) condTy() *Ty {
	if g.c.Chance(75, "cond-bool") {
		return tBool
	}
	return g.genTy(1)
}

func (g *gen) argTy(d int) *Ty {
	if d > 1 && g.c.Chance(10+g.funs, "fun-arg") {
		return tFun(g.genTy(1), g.genTy(0))
	}
	return g.genTy(1)
}

// nullish: something that is null
func (g *gen) nullish(d int) *N {
	for i := len(g.vars) - 1; i >= 0; i-- {
		if g.vars[i].ty.K == TMap && g.c.Bool("miss") && g.find(g.vars[i].name) == &g.vars[i] {
			if _, ok := g.vars[i].ty.FT["missing"]; !ok {
				return nRef(g.vars[i].name + ".missing?" + pick(g.c, "then", "", ".then?"))
			}
		}
	}
	if g.c.Bool("undef") {
		return nRef("undefined-name?")
	}
	return nNull()
}

func (g *gen) nonEmpty(el *Ty, d int) *N {
	if g.c.Bool("cons") {
		return g.call("lists.cons", g.expr(el, d-1, false), g.expr(tList(el), d-1, false))
	}
	n := &N{K: NList, Tag: "!quote"}
	for i := g.c.Int(1, 3, "items"); i > 0; i-- {
		n.Items = append(n.Items, g.expr(el, d-1, true))
	}
	return n
}

// callVar calls a function variable that returns the type.
func (g *gen) callVar(ty *Ty, d int) *N {
	var cands []gvar
	seen := map[string]bool{}
	for i := len(g.vars) - 1; i >= 0; i-- {
		v := g.vars[i]
		if !seen[v.name] && v.ty.K == TFun && v.ty.Ret.eq(ty) {
			cands = append(cands, v)
		}
		seen[v.name] = true
	}
	if len(cands) == 0 {
		return nil
	}
	v := cands[g.c.Int(0, len(cands)-1, "which-fun")]
	n := &N{K: NList, Items: []*N{nRef(v.name)}}
	for _, a := range v.ty.Args {
		n.Items = append(n.Items, g.expr(a, d-1, false))
	}
	return n
}

// op draws an operator call that yields the type.
func (g *gen) op(ty *Ty, d int) *N {
	e := func(t *Ty) *N { return g.expr(t, d-1, false) }
	c := g.c
	switch ty.K {
	case TInt:
		switch c.Int(0, 5, "int-op") {
		case 0, 1, 2:
			op := pick(c, "arith", "+", "-", "*", "add", "sub", "mul")
			n := g.call(op)
			for i := c.Int(1, 3, "operands"); i > 0; i-- {
				n.Items = append(n.Items, e(tInt))
			}
			return n
		case 3:
			return g.call(pick(c, "div", "/", "div"), e(tInt), nInt(int64(pick(c, "divisor", 1, 2, 3, -2, 7))))
		case 4:
			return g.call("lists.length", e(tList(g.genTy(0))))
		default:
			return g.call("lists.reduce", g.nonEmpty(tInt, d), e(tFun(tInt, tInt, tInt)))
		}
	case TStr:
		switch c.Int(0, 7, "str-op") {
		case 0, 1:
			n := g.call("strings.concat")
			for i := c.Int(0, 3, "operands"); i > 0; i-- {
				n.Items = append(n.Items, e(tStr))
			}
			return n
		case 2:
			return g.call(pick(c, "str1", "strings.toUpper", "strings.toLower", "strings.trim"), e(tStr))
		case 3:
			return g.call("strings.join", e(tList(tStr)), e(tStr))
		case 4:
			return g.call("strings.replace", e(tStr), g.scalar(tStr), e(tStr))
		case 5:
			return g.call("types.of", e(g.genTy(1)))
		case 6:
			return g.call("strings.format", pick(c, "fmt", nStr("%v-%v"), nStr("<%v|%v>")), e(tInt), e(tStr))
		default:
			return g.call("strings.concat", e(tStr), e(tStr))
		}
	case TBool:
		switch c.Int(0, 6, "bool-op") {
		case 0:
			return g.call(pick(c, "cmp", "<", "<=", ">", ">=", "lt", "gte"), e(tInt), e(pick(c, "cmp-ty", tInt, tInt, tFlt)))
		case 1:
			t := g.genTy(1)
			return g.call(pick(c, "eq", "==", "!=", "eq", "neq"), e(t), e(pick(c, "eq-ty", t, t, g.genTy(0))))
		case 2:
			return g.call(pick(c, "not", "not", "!"), e(g.condTy()))
		case 3, 4:
			n := g.call(pick(c, "logic", "and", "or", "&&", "||"))
			for i := c.Int(0, 3, "operands"); i > 0; i-- {
				n.Items = append(n.Items, e(g.condTy()))
			}
			return n
		case 5:
			return g.call("strings.contains", e(tStr), e(tStr))
		default:
			t := g.genTy(0)
			return g.call("lists.contains", e(tList(t)), e(t))
		}
	case TList:
		switch c.Int(0, 9, "list-op") {
		case 0:
			return g.call("lists.cons", e(ty.El), e(ty))
		case 1:
			return g.call("lists.cdr", g.nonEmpty(ty.El, d))
		case 2, 3:
			t := g.genTy(1)
			return g.call("lists.map", e(tList(t)), e(tFun(ty.El, t)))
		case 4, 5:
			return g.call("lists.filter", e(ty), e(tFun(tBool, ty.El)))
		case 6:
			if ty.El.K != TList {
				return g.call("lists.flatten", e(tList(ty)))
			}
			return g.call("lists.map", e(ty), e(tFun(ty.El, ty.El)))
		case 7:
			switch ty.El.K {
			case TInt:
				return g.call("lists.iota", nInt(int64(c.Int(0, 4, "iota"))), nInt(int64(c.Int(0, 9, "start"))))
			case TStr:
				if c.Bool("keys") {
					return g.call("maps.keys", e(g.mapTy(d)))
				}
				return g.call("strings.split", e(tStr), nStr(pick(c, "sep", ",", " ", "a", "")))
			}
			return g.call("lists.cons", e(ty.El), e(ty))
		case 8:
			m := g.mapTy(d)
			for _, f := range m.Fields {
				m.FT[f] = ty.El
			}
			return g.call("maps.values", e(m))
		default:
			return g.call(pick(c, "flat", "lists.flatten"), e(ty), e(ty))
		}
	case TMap:
		switch c.Int(0, 4, "map-op") {
		case 0, 1:
			n := g.call("maps.merge")
			h := c.Int(0, len(ty.Fields), "split")
			p1 := &Ty{K: TMap, FT: ty.FT, Fields: ty.Fields[:h]}
			p2 := &Ty{K: TMap, FT: ty.FT, Fields: ty.Fields[h:]}
			n.Items = append(n.Items, e(p1), e(p2))
			if c.Bool("again") {
				n.Items = append(n.Items, e(ty))
			}
			return n
		case 2:
			n := g.call("maps.make")
			for _, f := range ty.Fields {
				n.Items = append(n.Items, nStr(f), e(ty.FT[f]))
			}
			return n
		case 3:
			l := &N{K: NList, Tag: "!quote"}
			for _, f := range ty.Fields {
				l.Items = append(l.Items, nList(nStr(f), g.expr(ty.FT[f], d-1, true)))
			}
			return g.call("maps.from-entries", l)
		default:
			return g.call("maps.from-entries", g.call("maps.to-entries", e(ty)))
		}
	case TFloat:
		return g.call(pick(c, "dflt", "??", "default"), nNull(), e(tFlt))
	}
	return nil
}

func (g *gen) mapTy(d int) *Ty {
	t := &Ty{K: TMap, FT: map[string]*Ty{}}
	for i := g.c.Int(0, 3, "fields"); i > 0; i-- {
		f := genKey(g.c, "field")
		if _, ok := t.FT[f]; ok || f == "<<" || f == "apiVersion" || f == "kind" || f == "$schema" {
			continue
		}
		t.Fields = append(t.Fields, f)
		t.FT[f] = g.genTy(0)
	}
	return t
}

// bad draws an expression that is likely to fail.
func (g *gen) bad(ty *Ty, d int, q bool) *N {
	c := g.c
	switch c.Int(0, 9, "bad") {
	case 0:
		return nRef(pick(c, "undef", "nowhere", "x.y.z", "zz?.q"))
	case 1:
		for i := len(g.vars) - 1; i >= 0; i-- {
			if g.vars[i].ty.K == TMap {
				return nRef(g.vars[i].name + ".nokey")
			}
		}
		return nRef("nowhere")
	case 2:
		return g.mode(nCall(pick(c, "unknown", "nosuch", "strings.nope", "lists", "")), q)
	case 3:
		return g.mode(nCall("/", g.expr(tInt, d-1, false), nInt(0)), q)
	case 4:
		return g.mode(nCall("lists.car", nList()), q)
	case 5:
		return g.mode(nList(nCall("lambda", nList(), nInt(1)), nInt(2)), q)
	case 6:
		return g.mode(nList(g.expr(pick(c, "callee", tInt, tBool), d-1, false), nInt(1)), q)
	case 7:
		return g.mode(nCall("+", nStr("a"), nInt(1)), q)
	case 8:
		return g.mode(nCall("maps.get", g.expr(tMap("a", tInt), d-1, false), nStr("nokey")), q)
	default:
		return g.expr(g.genTy(1), d-1, q) // another type
	}
}

// doc draws one document of a program.
func (g *gen) doc(d int) *N {
	switch g.c.Int(0, 9, "doc") {
	case 0, 1: // a function
		ty := tFun(g.genTy(1))
		for i := g.c.Int(0, 3, "nparams"); i > 0; i-- {
			ty.Args = append(ty.Args, g.argTy(d))
		}
		n := g.lambda(ty, d, true)
		if n.K == NStr {
			n = nYisp(nCall("progn", n))
		}
		n.Anchor = g.fresh()
		g.define(n.Anchor, ty)
		return n
	case 2: // recursion
		return g.recursive(d)
	case 3: // definitions only
		n := &N{K: NList, Tag: "!yisp", Items: []*N{nStr("progn")}}
		for i := g.c.Int(1, 3, "defs"); i > 0; i-- {
			ty := g.argTy(d)
			e := g.expr(ty, d, false)
			if e.K == NRef {
				e = nCall("progn", e)
			}
			if e.Anchor == "" {
				e.Anchor = g.fresh()
				g.define(e.Anchor, ty)
			}
			n.Items = append(n.Items, e)
		}
		n.Items = append(n.Items, nNull())
		return n
	case 4, 5: // a named value, also emitted
		ty := g.genTy(2)
		n := g.expr(ty, d, true)
		if n.K == NRef {
			n = nList(n)
			ty = tList(ty)
		}
		if n.Anchor == "" {
			n.Anchor = g.fresh()
			g.define(n.Anchor, ty)
		}
		return n
	default:
		n := &N{K: NMap}
		q := true
		if g.c.Chance(50, "doc-yisp") {
			n.Tag = "!yisp"
			q = false
		}
		for i, k := 0, g.c.Int(1, 4, "outs"); i < k; i++ {
			n.Ents = append(n.Ents, &Ent{Key: fmt.Sprintf("r%d", i), Val: g.expr(g.genTy(2), d, q)})
		}
		if g.c.Chance(20, "as-list") {
			n = &N{K: NList}
			for i := g.c.Int(1, 3, "outs"); i > 0; i-- {
				n.Items = append(n.Items, g.expr(g.genTy(2), d, true))
			}
		}
		return n
	}
}

// recursive defines a recursive function over a count or a list.
func (g *gen) recursive(d int) *N {
	name := g.fresh()
	c := g.c
	g.define(name, tOpaque)
	switch c.Int(0, 3, "recursion") {
	case 0: // counts down, result built after the call returns
		ret := pick(c, "rec-ty", tInt, tStr)
		ps := nList(nStr("n"))
		keep := len(g.vars)
		g.vars = append(g.vars, gvar{"n", tInt})
		g.inFn++
		base := g.expr(ret, 1, false)
		rec := nList(nRef(name), nCall("-", nRef("n"), nInt(1)))
		var step *N
		if ret.K == TInt {
			step = nCall(pick(c, "rec-op", "+", "*", "-"), nRef("n"), rec)
			if c.Bool("flip") {
				step.Items[1], step.Items[2] = step.Items[2], step.Items[1]
			}
		} else {
			step = nCall("strings.concat", rec, g.expr(tStr, 1, false), nCall("strings.format", nStr("%v"), nRef("n")))
		}
		if c.Bool("local") { // a definition that belongs to the call
			loc := nCall("+", nRef("n"), nInt(0)).anchored("loc")
			step = nCall("progn", loc, step)
			if ret.K == TInt {
				last := step.Items[2]
				last.Items = append(last.Items, nRef("loc"))
			}
		}
		g.inFn--
		g.vars = g.vars[:keep]
		n := nYisp(nCall("lambda", ps, nCall("if", nCall("<=", nRef("n"), nInt(0)), base, step)))
		n.Anchor = name
		cnt := c.Int(0, 8, "count")
		call := nList(nRef(name), nInt(int64(cnt)))
		return nYisp(nCall("progn", n, nMap1(call)))
	case 1: // over a list
		n := nYisp(nCall("lambda", nList(nStr("l")), nCall("if", nCall("==", nCall("lists.length", nRef("l")), nInt(0)), nList(),
			nCall("lists.cons", nCall("progn", nList(nRef("fn?"), nCall("lists.car", nRef("l")))), nList(nRef(name), nCall("lists.cdr", nRef("l")))))))
		n.Items[2].Items[3].Items[1] = nCall("lists.car", nRef("l"))
		n.Anchor = name
		return nYisp(nCall("progn", n, nMap1(nList(nRef(name), g.expr(tList(tInt), d-1, false)))))
	case 2: // accumulator and a function passed along
		n := nYisp(nCall("lambda", nList(nStr("f"), nStr("l"), nStr("acc")), nCall("if", nRef("l"),
			nList(nRef(name), nRef("f"), nCall("lists.cdr", nRef("l")), nList(nRef("f"), nRef("acc"), nCall("lists.car", nRef("l")))), nRef("acc"))))
		n.Anchor = name
		return nYisp(nCall("progn", n, nMap1(nList(nRef(name), g.expr(tFun(tInt, tInt, tInt), d-1, false), g.expr(tList(tInt), d-1, false), g.expr(tInt, d-1, false)))))
	default: // makes functions
		mk := nYisp(nCall("lambda", nList(nStr("x")), nCall("lambda", nList(nStr("y")), nCall("+", nRef("x"), nRef("y"), g.expr(tInt, 1, false)))))
		mk.Anchor = name
		g.define(name, tFun(tFun(tInt, tInt), tInt))
		f1, f2 := g.fresh(), ""
		g.define(f1, tFun(tInt, tInt))
		f2 = g.fresh()
		g.define(f2, tFun(tInt, tInt))
		return nYisp(nCall("progn", mk, nList(nRef(name), g.expr(tInt, 1, false)).anchored(f1), nList(nRef(name), g.expr(tInt, 1, false)).anchored(f2),
			nMap1(nCall("-", nList(nRef(f1), nInt(1)), nList(nRef(f2), nInt(1))))))
	}
}

// tOpaque is the type of a function that nothing else calls.
var tOpaque = tFun(tMap("never to be called", tNull))

func nMap1(n *N) *N { return nMapOf("r", n) }

// program draws a program.
func (g *gen) program(maxDocs, d int) []*N {
	n := g.c.Int(1, maxDocs, "docs")
	var docs []*N
	for i := 0; i < n; i++ {
		docs = append(docs, g.doc(d))
	}
	return docs
}

// dump lists all data variables of the file in one document.
func (g *gen) dump() *N {
	n := &N{K: NMap}
	seen := map[string]bool{}
	for i := len(g.vars) - 1; i >= 0; i-- {
		v := g.vars[i]
		if !seen[v.name] && v.ty.K != TFun {
			n.Ents = append(n.Ents, &Ent{Key: "dump-" + v.name, Val: nRef(v.name + "?")})
		}
		seen[v.name] = true
	}
	if len(n.Ents) == 0 {
		n.Flow = true
	}
	return n
}
