package checks

import (
	"path/filepath"
	"testing"

	"github.com/totegamma/yisp/engine"
)

type man struct {
	av, kind, ns, name string
	noNS, noMeta       bool
}

// manIDs that are easily mixed up.
func genMan(c *C, k *kube) man {
	x := k.kinds[c.Int(0, len(k.kinds)-1, "kind")]
	m := man{av: x.av, kind: x.kind}
	switch c.Int(0, 11, "id") {
	case 9, 10: // names that an API server would fill in
		m.ns, m.name = pick(c, "ns5", "default", "", "kube-system", "x"), pick(c, "name5", "a", "b")
		m.noNS = c.Chance(40, "no-ns")
	case 0, 1, 2:
		m.ns, m.name = pick(c, "ns", "x", "y"), pick(c, "name", "a", "b")
	case 3, 4, 5:
		m.noNS, m.name = true, pick(c, "name", "a", "b", "x")
	case 6: // separators inside
		m.ns, m.name = pick(c, "ns2", "a/b", "a", "a\"/\"b"), pick(c, "name2", "c", "b/c", "b\"/\"c")
	case 7:
		m.ns, m.name = pick(c, "ns3", "a", "b"), pick(c, "name3", "b", "a")
	case 8:
		m.noNS, m.name = true, pick(c, "name4", "x/a", "a/x", "A", "a ")
	default:
		m.noMeta = true
	}
	return m
}

func (m man) value(c *C, spec *V, extra bool) *V {
	v := newOMap()
	put := []func(){
		func() { v.Set("apiVersion", vStr(m.av)) },
		func() { v.Set("kind", vStr(m.kind)) },
		func() {
			if m.noMeta {
				return
			}
			md := newOMap()
			if c.Bool("name-first") {
				md.Set("name", vStr(m.name))
			}
			if !m.noNS {
				md.Set("namespace", vStr(m.ns))
			}
			md.Set("name", vStr(m.name))
			if c.Chance(40, "labels") {
				l := newOMap()
				for i := c.Int(0, 2, "nl"); i > 0; i-- {
					l.Set(pick(c, "lk", "app", "tier", "x"), vStr(pick(c, "lv", "1", "2", "3")))
				}
				md.Set("labels", vMap(l))
			}
			v.Set("metadata", vMap(md))
		},
		func() {
			if spec != nil {
				v.Set("spec", spec)
			}
		},
		func() {
			if extra {
				v.Set(pick(c, "ek", "data", "status"), genMapV(c, 2, "ev"))
			}
		},
	}
	for _, i := range [][]int{{0, 1, 2, 3, 4}, {0, 1, 2, 4, 3}, {1, 0, 3, 2, 4}, {3, 2, 4, 1, 0}}[c.Int(0, 3, "order")] {
		put[i]()
	}
	return vMap(v)
}

func TestC14(t *testing.T) {
	sub(t, "patch", 1, "1..6 manifests (in a literal, an included file or a variable) of 1..3 kinds whose cached schemas replace, append or merge lists by key at any depth (also behind references), with names and namespaces that are equal, nearly equal or contain separators, and 0..5 patches (typed or plain data, partial, several for one manifest, for none, chained calls); as documents or inside a map; with and without type checks; against a reference merge; non-trivial: a patch matches", func(c *C) {
		dir := c.Dir()
		k := newKube(c)
		str := &Sch{Type: "string"}
		opts := engine.Options{}
		var gens []func() *V
		n := c.Int(1, 3, "kinds")
		for i := 0; i < n; i++ {
			id := []string{"K0", "io.x.K1", "K2"}[i]
			spec, gen := genMergeSch(c, 2)
			s := &Sch{Type: "object", Props: map[string]*Sch{"apiVersion": str, "kind": str, "metadata": {Type: "object", Addl: 2}, "data": {Type: "object", Addl: 2}, "status": {Type: "object", Addl: 2}}, PropNames: []string{"apiVersion", "kind", "metadata", "data", "status", "spec"}}
			if c.Chance(40, "spec-ref") {
				k.def(id+"Spec", spec)
				s.Props["spec"] = k.ref(id + "Spec")
				for _, p := range spec.PropNames { // items behind a reference
					if it := spec.Props[p].Items; it != nil && it.Type == "object" && c.Bool("item-ref") {
						k.def(id+p, it)
						spec.Props[p].Items = k.ref(id + p)
					}
				}
			} else {
				s.Props["spec"] = spec
			}
			if c.Chance(30, "needs-spec") {
				s.Required = []string{"spec"}
			}
			k.def(id, s)
			k.gvk([]string{"v1", "apps/v1", "apps/v1"}[i], []string{"Pod", "Pod", "Service"}[i], id)
			gens = append(gens, gen)
		}
		gen := func(m man) func() *V {
			for i, x := range k.kinds {
				if x.av == m.av && x.kind == m.kind {
					return gens[i]
				}
			}
			return nil
		}
		if c.Chance(20, "allow-untyped") { // a kind without a schema: lists are replaced
			opts.AllowUntypedManifest = true
			k.allow = true
			k.kinds = append(k.kinds, kind{"v1", "Other", ""})
			gens = append(gens, gens[0])
		}
		var mans []man
		var targets []*V
		var specs []*V
		for i := c.atMost(1, 5, 25, "targets"); i > 0; i-- {
			m := genMan(c, k)
			if len(mans) > 0 && c.Chance(25, "like-another") {
				m = mans[c.Int(0, len(mans)-1, "which")]
				switch c.Int(0, 4, "change") {
				case 0:
					m.kind = k.kinds[0].kind
					m.av = k.kinds[0].av
				case 1:
					m.name += "x"
				case 2:
					m.ns, m.noNS = pick(c, "other-ns", "z", "default", "", "null"), false
				case 3:
					m.noNS = !m.noNS && !m.noMeta
				}
			}
			mans = append(mans, m)
			s := gen(m)()
			specs = append(specs, s)
			targets = append(targets, m.value(c, s, c.Chance(30, "extra")))
		}
		genPatch := func() *V {
			m := genMan(c, k)
			if c.Chance(80, "hits") {
				m = mans[c.Int(0, len(mans)-1, "target")]
			}
			var s *V
			if c.Chance(90, "spec") {
				s = gen(m)()
			}
			return m.value(c, s, c.Chance(30, "extra"))
		}
		in := newInterp()
		in.kube = k
		in.fs = map[string]*FSFile{}
		in.globs = map[string][]string{}
		files := map[string]string{}
		main := filepath.Join(dir, "main.yisp")
		k.write(c)
		// the list of manifests, written in one of several places
		put := func(name string, vs []*V) *N {
			var ds []*N
			for _, v := range vs {
				ds = append(ds, flowEmpty(nOf(v)))
			}
			switch c.Int(0, 4, "place") {
			case 0, 1:
				f := name + ".yisp"
				if len(ds) == 0 {
					break
				}
				abs := filepath.Join(dir, f)
				setFile(ds, abs)
				in.fs[abs] = &FSFile{Prog: ds}
				in.globs[main+"|"+f] = []string{abs}
				files[f] = printDocs(ds, c.Seed("layout"), false)
				return nCall("include", nStr(f))
			case 2:
				if name == "patches" && len(ds) > 0 { // plain data: patches without a type
					f := name + ".json"
					abs := filepath.Join(dir, f)
					var data []*V
					text := "["
					for i, v := range vs {
						if plainFloats(nil, v) {
							return nQuote(nList(ds...))
						}
						data = append(data, sortKeys(v))
						if i > 0 {
							text += ","
						}
						text += v.jsonText()
					}
					in.fs[abs] = &FSFile{Data: data, IsJSON: true}
					in.globs[main+"|"+f] = []string{abs}
					files[f] = text + "]"
					return nCall("include", nStr(f))
				}
			}
			l := nQuote(nList(ds...))
			l.Flow = len(ds) == 0
			return l
		}
		var docs []*N
		tn := put("targets", targets)
		if c.Chance(40, "named") {
			docs = append(docs, nYisp(nCall("progn", tn.anchored("ts"), nNull())))
			tn = nRef("ts")
		}
		hits := 0
		calls := 1 + c.Int(0, 2, "more")/2
		for i := 0; i < calls; i++ {
			var ps []*V
			for j := c.atMost(0, 4, 15, "patches"); j > 0; j-- {
				ps = append(ps, genPatch())
			}
			for _, p := range ps {
				for _, t := range targets {
					if manID(p) == manID(t) {
						hits++
					}
				}
			}
			name := "patches"
			if i > 0 {
				name = "more"
			}
			tn = nCall("k8s.patch", tn, put(name, ps))
		}
		switch c.Int(0, 3, "where") {
		case 0:
			docs = append(docs, nYisp(tn))
		case 1:
			docs = append(docs, nMapOf("r", nYisp(tn)))
		case 2:
			docs = append(docs, nYisp(nCall("lists.as-toplevel", nCall("lists.car", nCall("lists.cons", nInt(1), tn)), nInt(1))))
			docs[len(docs)-1] = nYisp(nCall("lists.map", tn, nCall("lambda", nList(nStr("p")), nRef("p"))))
		default:
			docs = append(docs, nYisp(tn), nMapOf("n", nInt(1)))
		}
		setFile(docs, main)
		files["main.yisp"] = printDocs(docs, c.Seed("layout"), false)
		want, rerr, ok := refRun(in, docs, newEnv())
		if !ok {
			c.T.Skip("too long")
		}
		c.Write(dir, files)
		c.NonTrivialIf(hits > 0 && rerr == nil)
		c.ClassIf(hits > 1, "several-matches")
		c.ClassIf(rerr == nil && k.verify(in.raw) > 0, "ill-typed")
		o := c.EvalFile(main, opts)
		if rerr == nil && !opts.AllowUntypedManifest && k.verify(in.raw) > 0 {
			if o.Err == nil {
				c.Violate("an ill-typed manifest was emitted:\n%s", o.Text)
			}
			return
		}
		c.Expect(o, want, toErr(rerr), true)
	})
}
