package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"
)

// stepMap draws nested maps whose keys are usable as path steps.
func stepMap(c *C, d int) *V {
	m := newOMap()
	for i := c.Int(0, 4, "keys"); i > 0; i-- {
		k := stepNames[c.Int(0, len(stepNames)-1, "step")]
		switch {
		case d > 0 && c.Chance(60, "nest"):
			m.Set(k, stepMap(c, d-1))
		case c.Chance(20, "null"):
			m.Set(k, vNull())
		default:
			m.Set(k, genVal(c, 1, "leaf"))
		}
	}
	return vMap(m)
}

var stepNames = []string{"a", "b", "c", "a-b", "a_b", "x1", "1", "null", "true", "A", "name", "kind2", "0", "-", "_", "no", "if"}

// genPath draws a path into the value: steps that exist, that do not, optional or not.
func genPath(c *C, root string, v *V) string {
	p := root
	if c.Chance(10, "opt-root") {
		p += "?"
	}
	for i := c.atMost(0, 4, 24, "steps"); i > 0; i-- {
		if v == nil || v.K != VMap { // beyond a value that is no map: leave it mostly
			if !c.Chance(2, "beyond") {
				break
			}
			p += "." + stepNames[c.Int(0, len(stepNames)-1, "step")]
			v = nil
			continue
		}
		var ks []string
		for _, k := range v.M.keys {
			if isStep(k) {
				ks = append(ks, k)
			}
		}
		var k string
		if len(ks) > 0 && c.Chance(85, "present") {
			k = ks[c.Int(0, len(ks)-1, "key")]
		} else {
			k = stepNames[c.Int(0, len(stepNames)-1, "step")]
		}
		p += "." + k
		x, ok := v.M.Get(k)
		if c.Chance(25, "opt") || !ok && c.Chance(93, "opt-missing") {
			p += "?"
		}
		v = x
		if !ok {
			v = nil
		}
	}
	return p
}

func TestC33(t *testing.T) {
	sub(t, "paths", 1, "nested maps (0..4 levels; keys that look like numbers, nulls, booleans, with dashes and underscores; null leaves) reached through an anchor, a parameter, an imported module, a host variable, a captured variable or a result of operators, by 1..6 paths of existing and missing steps, each optional or not, as values, operator arguments, map values, keys of merges and function heads; against a reference; non-trivial: a path of two or more steps", func(c *C) {
		dir := c.Dir()
		v := stepMap(c, 3)
		if c.rarely("deep") {
			for i := c.Int(4, 20, "levels"); i > 0; i-- {
				v = vMapOf(stepNames[c.Int(0, 5, "level")], v)
			}
		}
		root := pick(c, "root", "v", "data", "a", "a-b", "v_1", "m1")
		var paths []string
		deep := false
		for i := c.atMost(1, 6, 11, "paths"); i > 0; i-- {
			p := genPath(c, root, v)
			deep = deep || strings.Contains(p, ".")
			paths = append(paths, p)
		}
		from := c.Int(0, 5, "from")
		body := func() *N { // uses the paths, in evaluation mode
			n0 := &N{K: NMap}
			for i, p := range paths {
				k := string(rune('p' + i))
				var e *N
				switch c.Int(0, 8, "use") {
				case 0:
					e = nCall("progn", nRef(p))
				case 1:
					e = nCall("??", nRef(p), nStr("missing"))
				case 2:
					e = nQuote(nList(nRef(p), nInt(1)))
				case 3:
					e = nCall("if", nRef(p), nRef(p), nStr("falsy"))
				case 4:
					e = nCall("types.of", nRef(p))
				case 5:
					e = nCall("==", nRef(p), nRef(p))
				case 6:
					e = nQuote(nMapOf("k", nRef(p)))
				default:
					e = nRef(p)
				}
				n0.Ents = append(n0.Ents, &Ent{Key: k, Val: e})
			}
			depth := 0
			for range c.atMost(0, 2, 5, "scopes") { // used inside functions with names of their own
				depth++
				ps, call := nList(), nList(nil)
				for j := c.Int(0, 3, "names"); j > 0; j-- {
					ps.Items = append(ps.Items, nStr(fmt.Sprintf("own%d%d", depth, j)))
					call.Items = append(call.Items, nInt(int64(j)))
				}
				ps.Flow = len(ps.Items) == 0
				inner := nQuote(nList(nYisp(n0)))
				if c.Chance(30, "anchor-inside") {
					inner = nCall("progn", nStr("local").anchored("local"), inner)
				}
				call.Items[0] = nCall("lambda", ps, inner)
				n0 = call
			}
			c.ClassIf(depth > 0, "inside-functions")
			return n0
		}
		in := newInterp()
		in.fs = map[string]*FSFile{}
		files := map[string]string{}
		var docs []*N
		env := newEnv()
		var host map[string]any
		lit := func() *N {
			n := nLit(v)
			n.Flow = len(n.Ents) == 0
			return n
		}
		switch from {
		case 0: // anchor
			docs = []*N{nYisp(nCall("progn", lit().anchored(root), nNull())), nYisp(body())}
			if c.Bool("inside") { // an anchor within a document
				docs = []*N{nMapOf("def", nOf(v).anchored(root), "use", nYisp(body()))}
				if len(v.M.keys) == 0 {
					docs[0].Ents[0].Val.Flow = true
				}
			}
		case 1: // parameter
			docs = []*N{nMapOf("r", nYisp(nList(nCall("lambda", nList(nStr(root)), nQuote(nList(nYisp(body())))), lit())))}
		case 2: // module definition
			files["mod.yisp"] = printDocs([]*N{nOf(v).anchored("it")}, c.Seed("layout"), false)
			mod := []*N{nOf(v).anchored("it")}
			if len(v.M.keys) == 0 {
				mod = []*N{nMapOf("x", nOf(v).anchored("it"))}
				mod[0].Ents[0].Val.Flow = true
				files["mod.yisp"] = printDocs(mod, 0, false)
			}
			in.fs[filepath.Join(dir, "mod.yisp")] = &FSFile{Prog: mod}
			for i, p := range paths {
				paths[i] = "m." + "it" + strings.TrimPrefix(p, root)
			}
			docs = []*N{nYisp(nCall("import", nList(nStr("m"), nStr("mod.yisp")))), nYisp(body())}
		case 3: // host variable
			host = map[string]any{root: v.native()}
			env.vars[root] = v
			docs = []*N{nYisp(body())}
		case 4: // captured by a function, then redefined
			docs = []*N{nYisp(nCall("progn", lit().anchored(root), nNull())), nYisp(nCall("lambda", nList(), nQuote(nList(nYisp(body()))))).anchored("fn"),
				nYisp(nCall("progn", nStr("other").anchored(root), nNull())), nMapOf("r", nYisp(nList(nRef("fn"))))}
		default: // computed
			docs = []*N{nYisp(nCall("progn", nCall("maps.merge", lit(), lit()).anchored(root), nNull())), nYisp(body())}
		}
		main := filepath.Join(dir, "main.yisp")
		setFile(docs, main)
		for _, p := range paths {
			c.ClassIf(strings.Contains(p, "?"), "optional")
		}
		src := printDocs(docs, c.Seed("layout"), c.Chance(10, "noise"))
		w, rerr, ok := refRun(in, docs, env)
		if !ok {
			c.Harness("too long")
		}
		c.Class(pick2(from, "anchor", "parameter", "module", "host", "captured", "computed"))
		c.NonTrivialIf(deep)
		var o Out
		if from == 3 {
			c.Note("--- host variable %s: %v\n--- program ---\n%s", root, v, src)
			o = c.EvalBytes(src, host, memOpts)
		} else {
			files["main.yisp"] = src
			c.Write(dir, files)
			o = c.EvalFile(main, memOpts)
		}
		c.Expect(o, w, toErr(rerr), false)
	})
	sub(t, "optional", 0.4, "one path with at most one missing step: without ? it is an error exactly when the step is missing, with ? at exactly that step it is null, with ? at any step that is present the value is the same as without; non-trivial: always", func(c *C) {
		leaf := genVal(c, 1, "leaf")
		n := c.Int(1, 4, "steps")
		var steps []string
		v := leaf
		for i := 0; i < n; i++ {
			k := stepNames[c.Int(0, len(stepNames)-1, "step")]
			steps = append([]string{k}, steps...)
			m := newOMap()
			for j := c.Int(0, 2, "others"); j > 0; j-- {
				m.Set(stepNames[c.Int(0, len(stepNames)-1, "other")], vInt(7))
			}
			m.Set(k, v)
			v = vMap(m)
		}
		miss := -1
		if c.Bool("miss") {
			miss = c.Int(0, n, "at") // 0: the variable itself
		}
		name := "v"
		path := append([]string{name}, steps...)
		if miss >= 0 {
			path[miss] = pick(c, "missing", "zz", "zz-1", "Zz", "9z")
		}
		plain := "*" + strings.Join(path, ".")
		present := func(ex int) string { // some ? at present steps
			q := append([]string{}, path...)
			for i := range q {
				if i != ex && (miss < 0 || i < miss) && c.Bool("q") {
					q[i] += "?"
				}
			}
			if ex >= 0 {
				q[ex] += "?"
			}
			return "*" + strings.Join(q, ".")
		}
		def := printDocs([]*N{nYisp(nCall("progn", nLit(v).anchored(name), nNull()))}, c.Seed("layout"), false)
		ev := func(p string) Out {
			return c.EvalOpt(def+"\n---\nr: "+p+"\n", memLoc, memOpts)
		}
		c.Note("%s\npath %s", def, plain)
		c.NonTrivial()
		if miss < 0 {
			want := []*V{vMapOf("r", leaf)}
			c.Class("present")
			c.Expect(ev(plain), want, nil, true)
			c.Expect(ev(present(-1)), want, nil, true)
			c.Expect(ev(present(c.Int(0, n, "ex"))), want, nil, true)
			return
		}
		c.Class("missing")
		if o := ev(plain); o.Err == nil {
			c.Violate("%s of a missing step gives %s", plain, o.Text)
		}
		if o := ev(present(-1)); o.Err == nil {
			c.Violate("a ? elsewhere makes the missing step of %s optional: %s", plain, o.Text)
		}
		c.Expect(ev(present(miss)), []*V{vMapOf("r", vNull())}, nil, true)
	})
}

func pick2(i int, names ...string) string { return names[i] }
