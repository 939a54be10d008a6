package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/totegamma/yisp/engine"
	"gopkg.in/yaml.v3"
)

// placeholders: the data with functions and types as special-object rendering shows them.
func placeholders(v *V) *V {
	switch v.K {
	case VLam:
		var ps []string
		for _, p := range v.Lam.Params {
			ps = append(ps, p.Name)
		}
		return vStr("λ" + strings.Join(ps, ","))
	case VType:
		return vStr("(type)")
	case VList:
		r := &V{K: VList}
		for _, x := range v.L {
			r.L = append(r.L, placeholders(x))
		}
		return r
	case VMap:
		r := newOMap()
		for _, k := range v.M.keys {
			r.Set(k, placeholders(v.M.m[k]))
		}
		return vMap(r)
	}
	return v
}

// quiet keeps what the code under test prints on standard output out of the way.
func quiet(c *C) func() {
	old := os.Stdout
	f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		c.Harness("%v", err)
	}
	os.Stdout = f
	return func() { os.Stdout = old; f.Close() }
}

func optText(o engine.Options) string {
	var s []string
	for _, x := range []struct {
		b bool
		n string
	}{{o.RenderSources, "sources"}, {o.RenderSpecialObjects, "special"}, {o.ShowTrace, "trace"}, {o.DisableTypeCheck, "no-check"}, {o.AllowUntypedManifest, "allow-untyped"}} {
		if x.b {
			s = append(s, x.n)
		}
	}
	return "options " + strings.Join(s, "+")
}

// combos evaluates a file with random option combinations and compares with the plain options.
func combos(c *C, file string, base engine.Options, n int, in *Interp, want []*V, rerr *evalErr, ordered bool) {
	plain := c.EvalFile(file, base)
	c.Expect(plain, want, toErr(rerr), ordered)
	var data []*V
	if plain.Err == nil {
		data = c.Docs(plain)
	}
	for i := 0; i < n; i++ {
		o := base
		x := c.Int(1, 31, "options")
		o.RenderSources = x&1 != 0
		o.RenderSpecialObjects = x&2 != 0
		o.ShowTrace = x&4 != 0
		o.DisableTypeCheck = o.DisableTypeCheck || x&8 != 0
		o.AllowUntypedManifest = o.AllowUntypedManifest || x&16 != 0
		c.Note("%s", optText(o))
		restore := func() {}
		if o.ShowTrace {
			restore = quiet(c)
		}
		r := func() Out { defer restore(); return c.EvalFile(file, o) }()
		if plain.Err != nil {
			if x&24 == 0 && r.Err == nil {
				c.Violate("%s: succeeds, but without them: %s", optText(o), errText(plain.Err))
			}
			continue
		}
		if r.Err != nil {
			c.Violate("%s: %s", optText(o), errText(r.Err))
		}
		got := c.Docs(r)
		if !o.RenderSpecialObjects {
			if d := diffDocs(data, got, true); d != "" {
				c.Violate("%s: other data: %s\n--- plain ---\n%s\n--- with options ---\n%s", optText(o), d, plain.Text, r.Text)
			}
			if !o.RenderSources && r.Text != plain.Text {
				c.Violate("%s: other text\n--- plain ---\n%s\n--- with options ---\n%s", optText(o), plain.Text, r.Text)
			}
			if o.RenderSources { // nothing but comments
				a, e1 := readNodes(plain.Text)
				b, e2 := readNodes(r.Text)
				if e1 != nil || e2 != nil {
					c.Violate("unreadable output: %v %v", e1, e2)
				}
				for _, n := range append(append([]*yaml.Node{}, a...), b...) {
					noComments(n)
				}
				if d := nodeDiff(a, b); d != "" {
					c.Violate("%s: more than comments changed: %s\n--- plain ---\n%s\n--- with options ---\n%s", optText(o), d, plain.Text, r.Text)
				}
			}
			continue
		}
		var special []*V
		for _, d := range in.raw {
			special = append(special, placeholders(d))
		}
		if d := diffDocs(special, got, ordered); d != "" {
			c.Violate("%s: %s\n--- expected ---\n%v\n--- got ---\n%s", optText(o), d, special, r.Text)
		}
	}
}

func TestC30(t *testing.T) {
	sub(t, "programs", 1, "random programs (functions and types as documents and nested in data, comments, multi-line strings, failing ones) evaluated with 3 random combinations of the five options: the same data as plainly and as the reference says, functions and types as placeholders; trace lines are discarded; non-trivial: three or more calls, or a function in the output", func(c *C) {
		g := newGen(c)
		g.anchors = 25
		if c.Chance(15, "with-errors") {
			g.errs = 20
		}
		docs := g.program(4, 3)
		for i := c.Int(0, 2, "specials"); i > 0; i-- {
			f := nCall("lambda", nList(), nInt(1))
			for j := c.Int(0, 3, "params"); j > 0; j-- {
				f.Items[1].Items = append(f.Items[1].Items, nStr(fmt.Sprintf("p%d", j)))
			}
			if len(f.Items[1].Items) == 0 {
				f.Items[1].Flow = true
			}
			if c.Chance(35, "type") {
				f = nCall("schema", nQuote(nMapOf("type", nStr("string"))))
			}
			switch c.Int(0, 3, "where") {
			case 0:
				docs = append(docs, nYisp(f))
			case 1:
				docs = append(docs, nMapOf("a", nInt(1), "f", nYisp(f), "b", nList(nYisp(f.clone()), nStr("x"))))
			case 2:
				docs = append(docs, nList(nYisp(f)))
			default:
				docs = append(docs, nMapOf("only", nYisp(f)))
			}
		}
		if c.Chance(50, "dump") {
			docs = append(docs, g.dump())
		}
		dir := c.Dir()
		if c.Chance(10, "odd-directory") {
			dir = filepath.Join(dir, pick(c, "dir", "a b", "#x", "a: b", "é", "it's", "%41", "q\"q"))
		}
		file := filepath.Join(dir, "main.yisp")
		setFile(docs, file)
		in := newInterp()
		want, rerr, ok := refRun(in, docs, newEnv())
		if !ok {
			c.T.Skip("too long")
		}
		for _, v := range in.raw {
			if hasFun(v) {
				c.Class("functions-in-output")
				c.NonTrivial()
			}
		}
		c.NonTrivialIf(in.calls >= 3)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			c.Harness("%v", err)
		}
		c.Write(dir, map[string]string{"main.yisp": printDocs(docs, c.Seed("layout"), c.Chance(30, "noise"))})
		combos(c, file, engine.Options{}, 3, in, want, rerr, true)
	})
	sub(t, "projects", 0.3, "random projects (modules, included programs and plain data), as above; non-trivial: always", func(c *C) {
		dir := c.Dir()
		p := genProject(c, dir, nil)
		p.finish()
		want, rerr, ok := p.ref()
		if !ok {
			c.T.Skip("too long")
		}
		c.NonTrivialIf(rerr == nil)
		combos(c, p.abs("main.yisp"), engine.Options{}, 2, p.in, want, rerr, false)
	})
	sub(t, "casts", 0.4, "values cast to a schema with defaults at any depth (literals, call results, results of functions with typed parameters, items of lists.map, asserted again with types.assert), with random properties left out or changed at one place, as above; non-trivial: a default is filled in", func(c *C) {
		s := genSch(c, 3, schOpt{defaults: true})
		if c.Chance(70, "object") && s.Type != "object" {
			s = &Sch{Type: "object", Props: map[string]*Sch{"w": s, "n": genSch(c, 2, schOpt{defaults: true}).withDefault(c)}, PropNames: []string{"w", "n"}}
		}
		tidyDefaults(s)
		s = schemaOf(s.value())
		v := s.good(c, 3)
		if c.Chance(15, "near-miss") {
			v = s.nearMiss(c, v, 4)
		}
		if hasFun(v) {
			c.T.Skip("function")
		}
		want, fine := s.cast(v)
		x := flowEmpty(nOf(v))
		x.Tag = "!T"
		docs := []*N{nYisp(nCall("schema", nLit(s.value())).anchored("T"))}
		switch c.Int(0, 4, "how") {
		case 0:
			docs = append(docs, nMapOf("r", x))
		case 1:
			e := nCall("progn", flowEmpty(nLit(v)))
			e.Tag = "!T"
			docs = append(docs, nYisp(nList(e, nInt(1))))
		case 2:
			docs = append(docs, nMapOf("r", nYisp(nCall("lists.map", nQuote(nList(nInt(1), nInt(2))), nCall("lambda", nList(nStr("i")), nQuote(nList(x)))))))
		case 3:
			p := nStr("p")
			p.Tag = "!T"
			docs = append(docs, nMapOf("r", nYisp(nList(nCall("lambda", nList(p), nQuote(nMapOf("got", nRef("p")))), flowEmpty(nLit(v))))))
		default:
			x.Anchor = "z"
			docs = append(docs, nMapOf("r", x, "again", nYisp(nCall("types.assert", nRef("T"), nRef("z")))))
		}
		c.ClassIf(!fine, "rejected")
		c.NonTrivialIf(fine && want.size() > v.size())
		file := filepath.Join(c.Dir(), "main.yisp")
		setFile(docs, file)
		in := newInterp()
		w, rerr, ok := refRun(in, docs, newEnv())
		if !ok {
			c.T.Skip("too long")
		}
		c.Write(filepath.Dir(file), map[string]string{"main.yisp": printDocs(docs, c.Seed("layout"), c.Chance(20, "noise"))})
		combos(c, file, engine.Options{}, 3, in, w, rerr, false)
	})
	sub(t, "manifests", 0.3, "well-typed manifests of a random schema cache: disabling checks or allowing untyped manifests changes nothing; non-trivial: always", func(c *C) {
		dir := c.Dir()
		k := genKube(c)
		k.write(c)
		in := newInterp()
		in.kube = k
		var docs []*N
		for i := c.Int(1, 3, "manifests"); i > 0; i-- {
			m := k.manifest(c, false)
			if c.Bool("nested") {
				m = nMapOf("in", nList(m))
			}
			docs = append(docs, m)
		}
		if c.Chance(40, "patched") {
			docs = append(docs, nYisp(nCall("k8s.patch", nQuote(nList(k.manifest(c, false), k.manifest(c, false))), nQuote(nList(k.manifest(c, false))))))
		}
		file := filepath.Join(dir, "main.yisp")
		setFile(docs, file)
		want, rerr, _ := refRun(in, docs, newEnv())
		if rerr != nil || k.verify(in.raw) > 0 {
			c.T.Skip("ill-typed")
		}
		c.NonTrivial()
		c.Write(dir, map[string]string{"main.yisp": printDocs(docs, c.Seed("layout"), c.Chance(30, "noise"))})
		combos(c, file, engine.Options{}, 3, in, want, nil, true)
	})
}

func noComments(n *yaml.Node) {
	n.HeadComment, n.LineComment, n.FootComment = "", "", ""
	for _, x := range n.Content {
		noComments(x)
	}
}
