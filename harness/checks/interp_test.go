package checks

// The reference interpreter: what a yisp program means, written from the documentation.

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"maps"
	"path"
	"slices"
	"strconv"
	"strings"
)

type Param struct {
	Name string
	Sch  *Sch
}

type Lam struct {
	Params  []Param
	Returns *Sch
	Body    *N
	Env     *Env
	Node    *N
}

type Env struct {
	parent *Env
	vars   map[string]*V
}

func newEnv() *Env { return &Env{vars: map[string]*V{}} }
func (e *Env) root() *Env {
	for e.parent != nil {
		e = e.parent
	}
	return e
}

var builtinTypes = map[string]*Sch{
	"null": {Type: "null"}, "bool": {Type: "boolean"}, "int": {Type: "integer"}, "float": {Type: "float"}, "string": {Type: "string"},
}

func (e *Env) lookup(name string) (*V, bool) {
	for x := e; x != nil; x = x.parent {
		if v, ok := x.vars[name]; ok {
			return v, true
		}
	}
	if s, ok := builtinTypes[name]; ok {
		return &V{K: VType, Sch: s}, true
	}
	return nil, false
}

func (e *Env) path(p string) (*V, bool) {
	segs := strings.Split(p, ".")
	name, opt := strings.CutSuffix(segs[0], "?")
	v, ok := e.lookup(name)
	if !ok {
		if opt {
			return vNull(), true
		}
		return nil, false
	}
	for _, s := range segs[1:] {
		k, opt := strings.CutSuffix(s, "?")
		if v.K != VMap {
			return nil, false
		}
		nv, ok := v.M.Get(k)
		if !ok {
			if opt {
				return vNull(), true
			}
			return nil, false
		}
		v = nv
	}
	return v, true
}

// evalErr is an error of the program under evaluation.
type evalErr struct {
	Node  *N // the failing expression, nil when it is a computed value
	Msg   string
	Chain []*N // enclosing expressions, innermost first
	Type  bool // a type violation
}

func (e *evalErr) Error() string { return e.Msg }
func (e *evalErr) in(n *N) *evalErr {
	if n != nil {
		e.Chain = append(e.Chain, n)
	}
	return e
}

func fail(n *N, format string, args ...any) *evalErr {
	return &evalErr{Node: n, Msg: fmt.Sprintf(format, args...)}
}

// FSFile is a file of the virtual file system of the interpreter.
type FSFile struct {
	Prog   []*N    // a program
	Data   []*V    // documents of a plain file
	Text   *string // anything else
	IsJSON bool
}

func isURL(p string) bool { return strings.HasPrefix(p, "http://") || strings.HasPrefix(p, "https://") }

type Interp struct {
	web             func(url string) *string
	local           func(url string) string // the path of a file that is served
	fs              map[string]*FSFile      // by cleaned path
	globs           map[string][]string     // "file|pattern" -> resolved paths
	trace           []string
	steps           int
	limit           int
	calls           int
	maxDepth, depth int
	used            map[string]int
	kube            *kube // schemas of manifests
	goAllowed       func(pkg string) bool
	exec            func(op string, m *V, nodes []*N, env *Env) (*V, *evalErr)
	raw             []*V      // the documents with their functions and types
	origin          map[*V]*N // the literals that values were written as, when asked for
	mainFile        string
}

func newInterp() *Interp { return &Interp{limit: 200000, used: map[string]int{}} }

type tooLong struct{}

// Run evaluates the documents of a file.
func (in *Interp) Run(docs []*N, env *Env) ([]*V, *evalErr) {
	var out []*V
	for _, d := range docs {
		v, err := in.Eval(d, env, false)
		if err != nil {
			return nil, err
		}
		if v.K == VNull {
			continue
		}
		if v.K == VList && v.Doc {
			out = append(out, v.L...)
			continue
		}
		out = append(out, v)
	}
	return out, nil
}

func (in *Interp) Eval(n *N, env *Env, eval bool) (*V, *evalErr) {
	in.steps++
	if in.steps > in.limit {
		panic(tooLong{})
	}
	in.depth++
	in.maxDepth = max(in.maxDepth, in.depth)
	defer func() { in.depth-- }()
	if n.Tag == "!yisp" {
		eval = true
	} else if n.Tag == "!quote" {
		eval = false
	}
	var res *V
	var err *evalErr
	switch n.K {
	case NRef:
		v, ok := env.path(n.S)
		if !ok {
			return nil, fail(n, "undefined: %s", n.S)
		}
		in.used["ref"]++
		res = v
	case NList:
		if eval {
			if len(n.Items) == 0 {
				res = vList()
			} else if res, err = in.call(n, env); err != nil {
				return nil, err
			}
		} else {
			l := &V{K: VList}
			for _, it := range n.Items {
				v, err := in.Eval(it, env, eval)
				if err != nil {
					return nil, err.in(it)
				}
				l.L = append(l.L, v)
			}
			res = l
		}
	case NMap:
		m := newOMap()
		for _, e := range n.Ents {
			v, err := in.Eval(e.Val, env, eval)
			if err != nil {
				return nil, err.in(e.Val)
			}
			if !e.Merge {
				m.Set(e.Key, v)
				continue
			}
			switch v.K {
			case VNull:
			case VMap:
				for _, k := range v.M.keys {
					m.Set(k, v.M.m[k])
				}
			case VList:
				for _, x := range v.L {
					switch x.K {
					case VNull:
					case VMap:
						for _, k := range x.M.keys {
							m.Set(k, x.M.m[k])
						}
					default:
						return nil, fail(e.Val, "merge of %s", x.K)
					}
				}
			default:
				return nil, fail(e.Val, "merge of %s", v.K)
			}
		}
		res = vMap(m)
		if in.kube != nil {
			if err := in.kube.typed(n, res); err != nil {
				return nil, err
			}
		}
	default:
		c := *n.V
		res = &c
	}
	if in.origin != nil && n.K != NRef && !(n.K == NList && eval) {
		in.origin[res] = n
	}
	if n.Tag != "" && n.Tag != "!yisp" && n.Tag != "!quote" && !strings.HasPrefix(n.Tag, "!!") {
		t, ok := env.path(strings.TrimPrefix(n.Tag, "!"))
		if ok && t.K == VType {
			c, ok := t.Sch.cast(res)
			if !ok {
				e := fail(n, "does not satisfy %s", n.Tag)
				e.Type = true
				return nil, e
			}
			res = c
		}
	}
	if n.Anchor != "" {
		env.vars[n.Anchor] = res
		if res.K == VLam {
			// recursion: a function knows itself by its name
			direct := n.K == NList && len(n.Items) > 0 && n.Items[0].K == NStr && n.Items[0].S == "lambda"
			if _, bound := res.Lam.Env.lookup(n.Anchor); direct || !bound {
				res.Lam.Env.vars[n.Anchor] = res
			}
		}
	}
	return res, nil
}

func (in *Interp) call(n *N, env *Env) (*V, *evalErr) {
	head := n.Items[0]
	op := ""
	if head.K == NStr {
		op = head.S
	}
	in.used[op]++
	switch op {
	case "if":
		if len(n.Items) != 4 {
			return nil, fail(head, "if: wrong number of arguments")
		}
		c, err := in.Eval(n.Items[1], env, true)
		if err != nil {
			return nil, err.in(n.Items[1])
		}
		i := 3
		if truthy(c) {
			i = 2
		}
		v, err := in.Eval(n.Items[i], env, true)
		if err != nil {
			return nil, err.in(n.Items[i])
		}
		return v, nil
	case "lambda":
		if len(n.Items) < 3 {
			return nil, fail(head, "lambda: too few arguments")
		}
		l := &Lam{Body: n.Items[2], Env: &Env{parent: env.parent, vars: map[string]*V{}}, Node: n}
		for k, v := range env.vars {
			l.Env.vars[k] = v
		}
		typeOf := func(p *N) (*Sch, *evalErr) {
			if p.Tag == "" || strings.HasPrefix(p.Tag, "!!") || p.K == NList && (p.Tag == "!yisp" || p.Tag == "!quote") {
				return nil, nil
			}
			t, ok := env.path(strings.TrimPrefix(p.Tag, "!"))
			if !ok || t.K != VType {
				return nil, fail(nil, "undefined type %s", p.Tag)
			}
			return t.Sch, nil
		}
		for _, p := range n.Items[1].Items {
			s, err := typeOf(p)
			if err != nil {
				return nil, err
			}
			l.Params = append(l.Params, Param{p.S, s})
		}
		var err *evalErr
		if l.Returns, err = typeOf(n.Items[1]); err != nil {
			return nil, err
		}
		return &V{K: VLam, Lam: l}, nil
	case "import":
		for _, it := range n.Items[1:] {
			if it.K != NList || len(it.Items) != 2 {
				return nil, fail(it, "import: malformed")
			}
			menv := newEnv()
			if _, err := in.file(it.Items[1].S, it.File, menv); err != nil {
				return nil, err.in(it)
			}
			m := newOMap()
			for k, v := range menv.vars {
				m.Set(k, v)
			}
			env.root().vars[it.Items[0].S] = vMap(m)
		}
		return vNull(), nil
	}
	var args []*V
	for _, it := range n.Items {
		v, err := in.Eval(it, env, true)
		if err != nil {
			return nil, err.in(it)
		}
		args = append(args, v)
	}
	v, err := in.Apply(args[0], args[1:], n.Items[0], n.Items[1:], env)
	if err != nil {
		return nil, err.in(n)
	}
	return v, nil
}

// litNode: the node to blame for a value, when the value was written right there
func litNode(nodes []*N, i int) *N {
	if i >= 0 && i < len(nodes) && nodes[i] != nil && nodes[i].K != NRef && nodes[i].K != NList && nodes[i].K != NMap {
		return nodes[i]
	}
	return nil
}

func (in *Interp) Apply(f *V, args []*V, fnode *N, nodes []*N, env *Env) (*V, *evalErr) {
	in.calls++
	switch f.K {
	case VLam:
		if len(args) > len(f.Lam.Params) {
			return nil, fail(nil, "too many arguments")
		}
		ne := &Env{parent: f.Lam.Env, vars: map[string]*V{}}
		for i, a := range args {
			p := f.Lam.Params[i]
			if p.Sch != nil && !p.Sch.valid(a) {
				e := fail(litNode(nodes, i), "argument %s: wrong type", p.Name)
				e.Type = true
				return nil, e
			}
			ne.vars[p.Name] = a
		}
		return in.Eval(f.Lam.Body, ne, true)
	case VStr:
		if f.S == "include" {
			return in.include(args, nodes)
		}
		op, ok := refOps[f.S]
		if !ok {
			var blame *N
			if fnode != nil && fnode.K == NStr {
				blame = fnode
			}
			return nil, fail(blame, "unknown function %s", f.S)
		}
		return op(in, args, nodes, env)
	}
	return nil, fail(nil, "cannot call %s", f.K)
}

func (in *Interp) file(p, base string, env *Env) ([]*V, *evalErr) {
	if isURL(p) && in.local != nil {
		p = in.local(p)
	}
	full := p
	if isURL(p) {
		if in.web == nil {
			return nil, fail(nil, "no network")
		}
		f := in.web(p)
		if f == nil {
			return nil, fail(nil, "no such page: %s", p)
		}
		return []*V{vStr(*f)}, nil
	}
	if !path.IsAbs(p) {
		full = path.Join(path.Dir(base), p)
	}
	f, ok := in.fs[full]
	if !ok {
		f, ok = in.fs[path.Join(full, "index.yisp")]
	}
	if !ok {
		return nil, fail(nil, "no such file: %s", full)
	}
	switch {
	case f.Text != nil:
		return []*V{vStr(*f.Text)}, nil
	case f.Prog != nil:
		return in.Run(f.Prog, env)
	}
	// plain data: a single list document stands for its elements
	if len(f.Data) == 1 && f.Data[0].K == VList {
		return f.Data[0].L, nil
	}
	var out []*V
	for _, d := range f.Data {
		if d.K != VNull || len(f.Data) == 1 {
			out = append(out, d)
		}
	}
	return out, nil
}

func (in *Interp) include(args []*V, nodes []*N) (*V, *evalErr) {
	res := &V{K: VList, Doc: true}
	for i, a := range args {
		if a.K != VStr {
			return nil, fail(litNode(nodes, i), "include: not a path")
		}
		file := ""
		if i >= 0 && i < len(nodes) && nodes[i] != nil {
			file = nodes[i].File
		}
		in.trace = append(in.trace, a.S)
		paths, ok := in.globs[file+"|"+a.S]
		if !ok {
			full := a.S
			if !path.IsAbs(full) && !isURL(full) {
				full = path.Join(path.Dir(file), full)
			}
			paths = []string{full}
		}
		for _, p := range paths {
			if isURL(p) && in.local != nil {
				p = in.local(p)
			}
			if p == file {
				continue
			}
			docs, err := in.file(p, "/x", newEnv())
			if err != nil {
				return nil, err.in(litNode(nodes, i))
			}
			res.L = append(res.L, docs...)
		}
	}
	return res, nil
}

type refOp func(in *Interp, args []*V, nodes []*N, env *Env) (*V, *evalErr)

var refOps = map[string]refOp{}

// pure registers an operator that only looks at its argument values; idx of the
// offending argument is returned with the error (-1: none in particular).
func pure(names string, f func(a []*V) (*V, int, string)) {
	op := func(in *Interp, a []*V, nodes []*N, env *Env) (*V, *evalErr) {
		v, i, msg := f(a)
		if msg != "" {
			return nil, fail(litNode(nodes, i), "%s", msg)
		}
		return v, nil
	}
	for _, n := range strings.Fields(names) {
		refOps[n] = op
	}
}

func init() {
	arith := func(neutral int64, f func(x, y int64) (int64, string), single bool) func(a []*V) (*V, int, string) {
		return func(a []*V) (*V, int, string) {
			for i, x := range a {
				if x.K != VInt {
					return nil, i, "not an integer"
				}
			}
			if len(a) == 0 {
				return vInt(neutral), 0, ""
			}
			r := a[0].I
			for i, x := range a[1:] {
				var msg string
				if r, msg = f(r, x.I); msg != "" {
					return nil, i + 1, msg
				}
			}
			return vInt(r), 0, ""
		}
	}
	// 64-bit results: checked with big integers where they are used as an oracle of exactness
	pure("+ add", arith(0, func(x, y int64) (int64, string) { return x + y, "" }, true))
	pure("- sub", arith(0, func(x, y int64) (int64, string) { return x - y, "" }, true))
	pure("* mul", arith(1, func(x, y int64) (int64, string) { return x * y, "" }, true))
	pure("/ div", func(a []*V) (*V, int, string) {
		for i, x := range a {
			if x.K != VInt {
				return nil, i, "not an integer"
			}
			if i > 0 && x.I == 0 {
				return nil, i, "division by zero"
			}
		}
		if len(a) == 0 {
			return vInt(0), 0, ""
		}
		r := a[0].I
		for _, x := range a[1:] {
			r /= x.I
		}
		return vInt(r), 0, ""
	})
	order := func(f func(c int) bool) func(a []*V) (*V, int, string) {
		return func(a []*V) (*V, int, string) {
			if len(a) != 2 {
				return nil, -1, "needs 2 arguments"
			}
			for i, x := range a {
				if x.K != VInt && x.K != VFloat {
					return nil, i, "not a number"
				}
			}
			c, ok := cmpNum(a[0], a[1])
			return vBool(ok && f(c)), 0, ""
		}
	}
	pure("< lt", order(func(c int) bool { return c < 0 }))
	pure("<= lte", order(func(c int) bool { return c <= 0 }))
	pure("> gt", order(func(c int) bool { return c > 0 }))
	pure(">= gte", order(func(c int) bool { return c >= 0 }))
	pure("== eq", func(a []*V) (*V, int, string) {
		if len(a) != 2 {
			return nil, -1, "needs 2 arguments"
		}
		return vBool(dataEqual(a[0], a[1])), 0, ""
	})
	pure("!= neq", func(a []*V) (*V, int, string) {
		if len(a) != 2 {
			return nil, -1, "needs 2 arguments"
		}
		return vBool(!dataEqual(a[0], a[1])), 0, ""
	})
	pure("?? default", func(a []*V) (*V, int, string) {
		for _, x := range a {
			if x.K != VNull {
				return x, 0, ""
			}
		}
		return vNull(), 0, ""
	})
	pure("&& and", func(a []*V) (*V, int, string) {
		for _, x := range a {
			if !truthy(x) {
				return vBool(false), 0, ""
			}
		}
		return vBool(true), 0, ""
	})
	pure("|| or", func(a []*V) (*V, int, string) {
		for _, x := range a {
			if truthy(x) {
				return vBool(true), 0, ""
			}
		}
		return vBool(false), 0, ""
	})
	pure("! not", func(a []*V) (*V, int, string) {
		if len(a) != 1 {
			return nil, -1, "needs 1 argument"
		}
		return vBool(!truthy(a[0])), 0, ""
	})
	pure("progn", func(a []*V) (*V, int, string) {
		if len(a) == 0 {
			return nil, -1, "needs an argument"
		}
		return a[len(a)-1], 0, ""
	})
	refOps["pipeline"] = func(in *Interp, a []*V, nodes []*N, env *Env) (*V, *evalErr) {
		if len(a) == 0 {
			return nil, fail(nil, "pipeline needs an argument")
		}
		v := a[0]
		for i, f := range a[1:] {
			var fn *N
			if i+1 < len(nodes) {
				fn = nodes[i+1]
			}
			var err *evalErr
			if v, err = in.Apply(f, []*V{v}, fn, nil, env); err != nil {
				return nil, err
			}
		}
		return v, nil
	}
	pure("schema", func(a []*V) (*V, int, string) {
		if len(a) != 1 || a[0].K != VMap {
			return nil, 0, "schema needs a map"
		}
		return &V{K: VType, Sch: schemaOf(a[0])}, 0, ""
	})

	pure("yaml.unmarshal", func(a []*V) (*V, int, string) { // of JSON texts only
		if len(a) != 1 || a[0].K != VStr {
			return nil, 0, "needs a string"
		}
		l := &V{K: VList}
		for _, t := range strings.Split(a[0].S, "\n---\n") {
			d := json.NewDecoder(strings.NewReader(t))
			d.UseNumber()
			var x any
			if err := d.Decode(&x); err != nil {
				panic("the reference reads JSON only: " + err.Error())
			}
			l.L = append(l.L, ofJSON(x))
		}
		return l, 0, ""
	})

	// strings
	str := func(n int, f func(s []string) *V) func(a []*V) (*V, int, string) {
		return func(a []*V) (*V, int, string) {
			if len(a) != n {
				return nil, -1, "wrong number of arguments"
			}
			var s []string
			for i, x := range a {
				if x.K != VStr {
					return nil, i, "not a string"
				}
				s = append(s, x.S)
			}
			return f(s), 0, ""
		}
	}
	pure("strings.concat", func(a []*V) (*V, int, string) {
		r := ""
		for i, x := range a {
			if x.K != VStr {
				return nil, i, "not a string"
			}
			r += x.S
		}
		return vStr(r), 0, ""
	})
	pure("strings.contains", str(2, func(s []string) *V { return vBool(strings.Contains(s[0], s[1])) }))
	pure("strings.split", str(2, func(s []string) *V {
		l := &V{K: VList}
		for _, p := range strings.Split(s[0], s[1]) {
			l.L = append(l.L, vStr(p))
		}
		return l
	}))
	pure("strings.toUpper", str(1, func(s []string) *V { return vStr(strings.ToUpper(s[0])) }))
	pure("strings.toLower", str(1, func(s []string) *V { return vStr(strings.ToLower(s[0])) }))
	pure("strings.trim", str(1, func(s []string) *V { return vStr(strings.TrimSpace(s[0])) }))
	pure("strings.sha256", str(1, func(s []string) *V { return vStr(fmt.Sprintf("%x", sha256.Sum256([]byte(s[0])))) }))
	pure("strings.replace", func(a []*V) (*V, int, string) {
		if len(a) != 3 && len(a) != 4 {
			return nil, -1, "wrong number of arguments"
		}
		for i := 0; i < 3; i++ {
			if a[i].K != VStr {
				return nil, i, "not a string"
			}
		}
		n := -1
		if len(a) == 4 {
			if a[3].K != VInt {
				return nil, 3, "not an integer"
			}
			n = int(a[3].I)
		}
		return vStr(strings.Replace(a[0].S, a[1].S, a[2].S, n)), 0, ""
	})
	pure("strings.join", func(a []*V) (*V, int, string) {
		if len(a) != 2 || a[0].K != VList || a[1].K != VStr {
			return nil, -1, "join needs a list and a string"
		}
		var s []string
		for _, x := range a[0].L {
			if x.K != VStr {
				return nil, -1, "not a string"
			}
			s = append(s, x.S)
		}
		return vStr(strings.Join(s, a[1].S)), 0, ""
	})
	pure("strings.format", func(a []*V) (*V, int, string) {
		if len(a) == 0 || a[0].K != VStr {
			return nil, 0, "format needs a string"
		}
		var args []any
		for _, x := range a[1:] {
			if hasFun(x) {
				panic(tooLong{}) // how a function prints is not specified
			}
			args = append(args, x.native())
		}
		return vStr(fmt.Sprintf(a[0].S, args...)), 0, ""
	})

	// lists
	list1 := func(f func(l *V) (*V, string)) func(a []*V) (*V, int, string) {
		return func(a []*V) (*V, int, string) {
			if len(a) != 1 || a[0].K != VList {
				return nil, 0, "needs one list"
			}
			v, msg := f(a[0])
			return v, -1, msg
		}
	}
	pure("lists.car", list1(func(l *V) (*V, string) {
		if len(l.L) == 0 {
			return nil, "empty"
		}
		return l.L[0], ""
	}))
	pure("lists.cdr", list1(func(l *V) (*V, string) {
		if len(l.L) == 0 {
			return nil, "empty"
		}
		return vList(append([]*V{}, l.L[1:]...)...), ""
	}))
	pure("lists.length", list1(func(l *V) (*V, string) { return vInt(int64(len(l.L))), "" }))
	pure("lists.cons", func(a []*V) (*V, int, string) {
		if len(a) != 2 || a[1].K != VList {
			return nil, 1, "cons needs a value and a list"
		}
		return vList(append([]*V{a[0]}, a[1].L...)...), 0, ""
	})
	pure("lists.contains", func(a []*V) (*V, int, string) {
		if len(a) != 2 || a[0].K != VList {
			return nil, 0, "contains needs a list"
		}
		for _, x := range a[0].L {
			if dataEqual(x, a[1]) {
				return vBool(true), 0, ""
			}
		}
		return vBool(false), 0, ""
	})
	pure("lists.at", func(a []*V) (*V, int, string) {
		if len(a) != 2 || a[0].K != VList {
			return nil, 0, "at needs a list"
		}
		if a[1].K != VInt {
			return nil, 1, "at needs an integer"
		}
		if a[1].I < 0 || a[1].I >= int64(len(a[0].L)) {
			return nil, 1, "out of range"
		}
		return a[0].L[a[1].I], 0, ""
	})
	pure("lists.iota", func(a []*V) (*V, int, string) {
		if len(a) != 1 && len(a) != 2 {
			return nil, -1, "iota needs 1 or 2 arguments"
		}
		for i, x := range a {
			if x.K != VInt || x.I < 0 {
				return nil, i, "iota needs counts"
			}
		}
		start := int64(0)
		if len(a) == 2 {
			start = a[1].I
		}
		l := &V{K: VList}
		for i := int64(0); i < a[0].I; i++ {
			l.L = append(l.L, vInt(start+i))
		}
		return l, 0, ""
	})
	pure("lists.flatten", func(a []*V) (*V, int, string) {
		r := &V{K: VList, Doc: len(a) > 0}
		for _, x := range a {
			r.Doc = r.Doc && x.Doc
			if x.K != VList {
				r.L = append(r.L, x)
				continue
			}
			for _, y := range x.L {
				if y.K == VList {
					r.L = append(r.L, y.L...)
				} else {
					r.L = append(r.L, y)
				}
			}
		}
		return r, 0, ""
	})
	pure("lists.as-toplevel", func(a []*V) (*V, int, string) {
		r := &V{K: VList, Doc: true}
		for _, x := range a {
			if x.K == VList {
				r.L = append(r.L, x.L...)
			} else {
				r.L = append(r.L, x)
			}
		}
		return r, 0, ""
	})
	higher := func(f func(in *Interp, l *V, fn func(args ...*V) (*V, *evalErr)) (*V, *evalErr)) refOp {
		return func(in *Interp, a []*V, nodes []*N, env *Env) (*V, *evalErr) {
			if len(a) != 2 || a[0].K != VList {
				return nil, fail(litNode(nodes, 0), "needs a list and a function")
			}
			var fnode *N
			if len(nodes) > 1 {
				fnode = nodes[1]
			}
			return f(in, a[0], func(args ...*V) (*V, *evalErr) { return in.Apply(a[1], args, fnode, nil, env) })
		}
	}
	refOps["lists.map"] = higher(func(in *Interp, l *V, fn func(args ...*V) (*V, *evalErr)) (*V, *evalErr) {
		r := &V{K: VList, Doc: l.Doc}
		for _, x := range l.L {
			y, err := fn(x)
			if err != nil {
				return nil, err
			}
			r.L = append(r.L, y)
		}
		return r, nil
	})
	refOps["lists.filter"] = higher(func(in *Interp, l *V, fn func(args ...*V) (*V, *evalErr)) (*V, *evalErr) {
		r := &V{K: VList, Doc: l.Doc}
		for _, x := range l.L {
			y, err := fn(x)
			if err != nil {
				return nil, err
			}
			if truthy(y) {
				r.L = append(r.L, x)
			}
		}
		return r, nil
	})
	refOps["lists.reduce"] = higher(func(in *Interp, l *V, fn func(args ...*V) (*V, *evalErr)) (*V, *evalErr) {
		if len(l.L) == 0 {
			return nil, fail(nil, "reduce of an empty list")
		}
		acc := l.L[0]
		for _, x := range l.L[1:] {
			var err *evalErr
			if acc, err = fn(acc, x); err != nil {
				return nil, err
			}
		}
		return acc, nil
	})

	// maps
	map1 := func(f func(m *OMap) *V) func(a []*V) (*V, int, string) {
		return func(a []*V) (*V, int, string) {
			if len(a) != 1 || a[0].K != VMap {
				return nil, 0, "needs one map"
			}
			return f(a[0].M), 0, ""
		}
	}
	pure("maps.keys", map1(func(m *OMap) *V {
		l := &V{K: VList}
		for _, k := range m.keys {
			l.L = append(l.L, vStr(k))
		}
		return l
	}))
	pure("maps.values", map1(func(m *OMap) *V {
		l := &V{K: VList}
		for _, k := range m.keys {
			l.L = append(l.L, m.m[k])
		}
		return l
	}))
	pure("maps.to-entries", map1(func(m *OMap) *V {
		l := &V{K: VList}
		for _, k := range m.keys {
			l.L = append(l.L, vList(vStr(k), m.m[k]))
		}
		return l
	}))
	pure("maps.from-entries", func(a []*V) (*V, int, string) {
		if len(a) != 1 || a[0].K != VList {
			return nil, 0, "needs a list of entries"
		}
		m := newOMap()
		for _, e := range a[0].L {
			if e.K != VList || len(e.L) != 2 || e.L[0].K != VStr {
				return nil, -1, "malformed entry"
			}
			m.Set(e.L[0].S, e.L[1])
		}
		return vMap(m), 0, ""
	})
	pure("maps.make", func(a []*V) (*V, int, string) {
		m := newOMap()
		for i := 0; i < len(a); i += 2 {
			if a[i].K != VStr {
				return nil, i, "key is not a string"
			}
			if i+1 >= len(a) {
				return nil, i, "odd number of arguments"
			}
			m.Set(a[i].S, a[i+1])
		}
		return vMap(m), 0, ""
	})
	pure("maps.get", func(a []*V) (*V, int, string) {
		if len(a) != 2 || a[0].K != VMap {
			return nil, 0, "get needs a map"
		}
		if a[1].K != VStr {
			return nil, 1, "get needs a string key"
		}
		v, ok := a[0].M.Get(a[1].S)
		if !ok {
			return nil, 1, "missing key"
		}
		return v, 0, ""
	})
	pure("maps.merge", func(a []*V) (*V, int, string) {
		r := vNull()
		for _, x := range a {
			var ok bool
			if r, ok = mergeRef(r, x, x.Typ); !ok {
				return nil, -1, "cannot merge"
			}
		}
		return r, 0, ""
	})
	pure("maps.patch", func(a []*V) (*V, int, string) {
		if len(a) != 2 {
			return nil, -1, "patch needs 2 arguments"
		}
		v, err := patchRef(a[0], a[1])
		if err != nil {
			return nil, -1, err.Error()
		}
		return v, 0, ""
	})

	// types
	pure("types.of", func(a []*V) (*V, int, string) {
		if len(a) != 1 {
			return nil, -1, "needs 1 argument"
		}
		s := a[0].K.String()
		if s == "list" {
			s = "array"
		}
		return vStr(s), 0, ""
	})
	refOps["types.assert"] = func(in *Interp, a []*V, nodes []*N, env *Env) (*V, *evalErr) {
		if len(a) != 2 || a[0].K != VType {
			return nil, fail(litNode(nodes, 0), "assert needs a type")
		}
		if !a[0].Sch.valid(a[1]) {
			e := fail(litNode(nodes, 1), "type mismatch")
			e.Type = true
			return nil, e
		}
		return a[1], nil
	}
}

// mergeRef merges src into dst (neither is modified).
func mergeRef(dst, src *V, s *Sch) (*V, bool) {
	switch {
	case dst.K == VMap && src.K == VMap:
		m := newOMap()
		for _, k := range dst.M.keys {
			m.Set(k, dst.M.m[k])
		}
		for _, k := range src.M.keys {
			if d, ok := dst.M.Get(k); ok {
				v, ok := mergeRef(d, src.M.m[k], s.prop(k))
				if !ok {
					return nil, false
				}
				m.Set(k, v)
			} else {
				m.Set(k, src.M.m[k])
			}
		}
		return &V{K: VMap, M: m, Typ: src.Typ}, true
	case dst.K == VList && src.K == VList && s != nil && (s.PatchStrategy == "merge" || s.PatchStrategy == "merge,retainKeys"):
		if s.PatchMergeKey == "" {
			return &V{K: VList, L: append(append([]*V{}, dst.L...), src.L...)}, true
		}
		l := append([]*V{}, dst.L...)
		for _, x := range src.L {
			if x.K != VMap {
				return nil, false
			}
			k, ok := x.M.Get(s.PatchMergeKey)
			if !ok {
				return nil, false
			}
			found := false
			for i, y := range l {
				if y.K != VMap {
					return nil, false
				}
				if ky, ok := y.M.Get(s.PatchMergeKey); ok && dataEqual(ky, k) {
					v, ok := mergeRef(y, x, s.Items.deref())
					if !ok {
						return nil, false
					}
					l[i], found = v, true
					break
				}
			}
			if !found {
				l = append(l, x)
			}
		}
		return &V{K: VList, L: l}, true
	}
	return src, true
}

func ofJSON(x any) *V {
	switch x := x.(type) {
	case nil:
		return vNull()
	case bool:
		return vBool(x)
	case string:
		return vStr(x)
	case json.Number:
		if i, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
			return vInt(i)
		}
		f, err := x.Float64()
		if err != nil {
			panic(err)
		}
		return vFloat(f)
	case []any:
		l := &V{K: VList}
		for _, y := range x {
			l.L = append(l.L, ofJSON(y))
		}
		return l
	case map[string]any:
		m := newOMap()
		for _, k := range slices.Sorted(maps.Keys(x)) {
			m.Set(k, ofJSON(x[k]))
		}
		return vMap(m)
	}
	panic(fmt.Sprintf("%T", x))
}
