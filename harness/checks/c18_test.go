package checks

import (
	"path/filepath"
	"testing"

	"github.com/totegamma/yisp/engine"
)

// genKube draws a cache of definitions that refer to each other, and kinds.
func genKube(c *C) *kube { return genKubeIn(c, newKube(c)) }

func genKubeIn(c *C, in *kube) *kube {
	k := &kube{dir: in.dir, defs: map[string]*Sch{}, urls: map[string]*Sch{}}
	var refs []*Sch
	str := &Sch{Type: "string"}
	meta := k.def("io.k8s.ObjectMeta", &Sch{Type: "object", Props: map[string]*Sch{"name": str, "namespace": str, "labels": {Type: "object", Addl: 3, AddlSch: str}}, PropNames: []string{"name", "namespace", "labels"}})
	_ = meta
	for i := c.Int(0, 3, "shared"); i > 0; i-- {
		id := []string{"Shared", "io.k8s.api.core.v1.Part", "a_b-c", "S9"}[i]
		k.def(id, genSch(c, 2, schOpt{refs: refs}))
		refs = append(refs, k.ref(id))
	}
	if c.Chance(25, "recursive") {
		s := k.def("Rec", &Sch{Type: "object", Props: map[string]*Sch{"v": genSch(c, 1, schOpt{})}, PropNames: []string{"v", "child", "kids"}})
		s.Props["child"] = k.ref("Rec")
		s.Props["kids"] = &Sch{Type: "array", Items: k.ref("Rec")}
		refs = append(refs, k.ref("Rec"))
	}
	avs := []string{"v1", "apps/v1", "apps/v1beta1", "v1beta1", "example.com/v1", "net.example.com/v1"}
	kinds := []string{"Pod", "Deployment", "List", "X"}
	if c.Chance(15, "case") { // names that differ in case only are different names
		kinds, avs = []string{"Pod", "POD", "pod", "PoD"}, []string{"v1", "apps/v1", "Apps/v1"}
	}
	n := c.Int(1, 4, "kinds")
	for i := 0; i < n; i++ {
		id := []string{"io.k8s.api.core.v1.Pod", "Deployment.v1", "K3", "com.example.v1.X"}[i]
		s := &Sch{Type: "object", Props: map[string]*Sch{"apiVersion": str, "kind": str}, PropNames: []string{"apiVersion", "kind"}}
		if c.Chance(80, "metadata") {
			s.PropNames = append(s.PropNames, "metadata")
			s.Props["metadata"] = k.ref("io.k8s.ObjectMeta")
		}
		if c.Chance(90, "spec") {
			s.PropNames = append(s.PropNames, "spec")
			s.Props["spec"] = genSch(c, 3, schOpt{refs: refs})
			if c.Chance(30, "spec-required") {
				s.Required = []string{"spec"}
			}
		}
		if c.Chance(20, "required") {
			s.Required = append(s.Required, "kind")
		}
		switch c.Int(0, 4, "extra") {
		case 0:
			s.Addl = 2
		case 1:
			s.Addl, s.AddlSch = 3, genSch(c, 1, schOpt{refs: refs})
		case 2:
			if s.Props["spec"] != nil && c.Bool("open-spec") {
				s.Props["spec"] = &Sch{Type: "object", Addl: 2}
			}
		}
		k.def(id, s)
		k.gvk(avs[c.Int(0, len(avs)-1, "av")], kinds[c.Int(0, len(kinds)-1, "kind")], id)
		if c.Chance(30, "another-gvk") {
			k.gvk(avs[c.Int(0, len(avs)-1, "av")], kinds[c.Int(0, len(kinds)-1, "kind")], id)
		}
	}
	// the last entry of a GVK file wins; the reference takes the first
	seen := map[[2]string]bool{}
	var ks []kind
	for _, x := range k.kinds {
		if !seen[[2]string{x.av, x.kind}] {
			seen[[2]string{x.av, x.kind}] = true
			ks = append(ks, x)
		}
	}
	k.kinds = ks
	if c.Chance(35, "url") {
		for i := c.Int(1, 2, "urls"); i > 0; i-- {
			k.urls[[]string{"http://127.0.0.1:9/s.json", "http://127.0.0.1:9/a/b?c=???>>>"}[i-1]] = genSch(c, 2, schOpt{refs: refs})
		}
		for _, s := range k.urls {
			if s.Ref == "" && s.Type != "object" {
				*s = Sch{Type: "object", Props: map[string]*Sch{"a": schemaCopy(s)}, PropNames: []string{"a"}}
			}
		}
	}
	return k
}

func schemaCopy(s *Sch) *Sch { r := *s; return &r }

// manifest draws a manifest of one of the kinds, ill-typed at one place at times.
func (k *kube) manifest(c *C, bad bool) *N {
	var s *Sch
	m := newOMap()
	if len(k.urls) > 0 && c.Chance(30, "by-url") {
		u := "http://127.0.0.1:9/s.json"
		if _, ok := k.urls[u]; !ok || len(k.urls) > 1 && c.Bool("second") {
			u = "http://127.0.0.1:9/a/b?c=???>>>"
		}
		if s = k.urls[u]; s != nil {
			m.Set("$schema", vStr(u))
		}
	}
	if s == nil {
		return k.manifestOf(c, k.kinds[c.Int(0, len(k.kinds)-1, "which")], bad)
	}
	return k.fill(c, m, s, bad)
}

func (k *kube) manifestOf(c *C, x kind, bad bool) *N {
	m := newOMap()
	m.Set("apiVersion", vStr(x.av))
	m.Set("kind", vStr(x.kind))
	if c.Chance(3, "unknown") {
		m.Set("kind", vStr("Unknown"))
		m.Set("apiVersion", vStr(pick(c, "uav", "v1", "x/v1", "a/b/c")))
	}
	return k.fill(c, m, k.defs[x.id], bad)
}

// fill adds the rest of a manifest to the keys that name its type.
func (k *kube) fill(c *C, m *OMap, s *Sch, bad bool) *N {
	v := s.good(c, 3)
	if v == nil || v.K != VMap {
		v = vMapOf()
	}
	v = v.clone()
	v.M.Del("$schema")
	head := m.keys
	at := c.Int(0, 2, "head-at") // the keys that name the type need not come first
	res := newOMap()
	if at > 0 {
		for _, h := range head {
			res.Set(h, m.m[h])
		}
	}
	for _, key := range v.M.keys {
		if _, ok := m.Get(key); !ok {
			res.Set(key, v.M.m[key])
		}
	}
	for _, h := range head {
		res.Set(h, m.m[h])
	}
	out := vMap(res)
	if bad {
		for i := 0; i < 8; i++ {
			w := s.nearMiss(c, out.clone(), 4)
			if w.K != VMap {
				continue
			}
			for _, h := range head {
				w.M.Set(h, m.m[h])
			}
			if !s.valid(w) {
				out = w
				break
			}
		}
	}
	if hasFun(out) {
		out = vMap(m)
	}
	return flowEmpty(nOf(out))
}

// open puts a manifest in a place of another that takes anything, or nil.
func (k *kube) open(c *C, m *N) *N {
	for _, x := range k.kinds {
		s := k.defs[x.id]
		key := ""
		if s.Addl == 2 {
			key = "extra"
		}
		for p, ps := range s.Props {
			if p != "spec" {
				continue
			}
			for ps.Ref != "" {
				ps = ps.RefTo
			}
			if ps.Type == "object" && ps.Addl == 2 && len(ps.Props) == 0 {
				key = "spec"
			}
		}
		if key == "" {
			continue
		}
		v := s.good(c, 3)
		if v == nil || v.K != VMap || hasFun(v) {
			continue
		}
		o := flowEmpty(nOf(v.clone()))
		o.Flow = false
		var es []*Ent
		es = append(es, &Ent{Key: "apiVersion", Val: nStr(x.av)}, &Ent{Key: "kind", Val: nStr(x.kind)})
		for _, e := range o.Ents {
			if e.Key != "apiVersion" && e.Key != "kind" && e.Key != key && e.Key != "$schema" {
				es = append(es, e)
			}
		}
		val := pick(c, "open-shape", m, nMapOf("deep", nList(m)), nMapOf("a", nInt(1), "b", m))
		if key == "extra" && c.Bool("direct") {
			val = pick(c, "open-list", nList(m), nList(nInt(1), nList(m)))
		}
		if key == "spec" && val == m {
			val = nMapOf("inner", m)
		}
		es = append(es, &Ent{Key: key, Val: val})
		o.Ents = es
		c.Class("nested-in-typed")
		return o
	}
	return nil
}

func TestC18(t *testing.T) {
	sub(t, "manifests", 1, "random schema caches (1..4 kinds, several groups and versions, the core group, references between definitions and to themselves, $schema entries) and programs with 1..5 manifests, conforming or changed at one place, of known or unknown kinds, as documents, in maps, lists, other manifests, variables, function results, lists.map, merges, patches, included and imported files; evaluated through every entry point; against a reference that types every map written in a program and validates the whole output; non-trivial: a typed manifest in the output", func(c *C) {
		dir := c.Dir()
		k := genKube(c)
		k.write(c)
		opts := engine.Options{}
		mode := c.Int(0, 9, "mode")
		switch mode {
		case 0:
			opts.AllowUntypedManifest = true
			k.allow = true
		case 1:
			opts.DisableTypeCheck = true
		}
		badAt := -1
		n := c.atMost(1, 4, 20, "manifests")
		if c.Chance(65, "some-bad") {
			badAt = c.Int(0, n-1, "bad-at")
		}
		in := newInterp()
		in.kube = k
		in.fs = map[string]*FSFile{}
		files := map[string]string{}
		var docs []*N
		entry := c.Int(0, 4, "entry")
		for i := 0; i < n; i++ {
			m := k.manifest(c, i == badAt)
			how := c.Int(0, 17, "place")
			if entry == 3 && how >= 10 && how <= 12 { // evaluated from bytes: no files
				how = 0
			}
			call := func(x *N) *N { return nYisp(x) }
			switch how {
			case 0, 1:
				docs = append(docs, m)
			case 2:
				docs = append(docs, nMapOf("in", nMapOf("side", nList(nInt(1), m))))
			case 3: // a list of documents
				docs = append(docs, call(nCall("lists.as-toplevel", nQuote(nList(m, nMapOf("plain", nInt(1)))))))
			case 4: // part of another manifest or of a map that looks like one
				o := nMapOf("apiVersion", nInt(1), "kind", nStr("Pod"), "items", nList(m))
				if c.Chance(70, "in-typed") { // in an open place of a manifest that conforms otherwise
					if w := k.open(c, m); w != nil {
						o = w
					}
				}
				docs = append(docs, o)
			case 5: // a function's result
				docs = append(docs, call(nCall("progn", nCall("lambda", nList(nStr("p")), nQuote(nList(m))).anchored("f"), nNull())), nMapOf("r", nYisp(nList(nRef("f"), nInt(1)))))
			case 6: // a variable used later, or never
				docs = append(docs, call(nCall("progn", m.anchored("v"), nNull())))
				if c.Chance(60, "used") {
					docs = append(docs, pick(c, "use", nRef("v"), nMapOf("r", nRef("v")), nList(nRef("v"), nRef("v"))))
				}
			case 7:
				docs = append(docs, call(nCall("lists.map", nQuote(nList(nInt(1), nInt(2))), nCall("lambda", nList(nStr("p")), pick(c, "quoted", nQuote(m), m)))))
			case 8: // evaluated strings name the kind
				for _, e := range m.Ents {
					if (e.Key == "kind" || e.Key == "apiVersion") && e.Val.K == NStr {
						e.Val = nYisp(nCall("strings.concat", nStr(e.Val.S), nStr("")))
					}
				}
				docs = append(docs, m)
			case 9:
				docs = append(docs, nMapOf("r", nYisp(nCall("if", nBool(c.Bool("cond")), m, nStr("none")))))
			case 10, 11:
				f := pick(c, "file", "inc.yisp", "sub/inc.yisp")
				abs := filepath.Join(dir, f)
				ds := []*N{nMapOf("first", nInt(1)), m}
				setFile(ds, abs)
				in.fs[abs] = &FSFile{Prog: ds}
				if in.globs == nil {
					in.globs = map[string][]string{}
				}
				in.globs[filepath.Join(dir, "main.yisp")+"|"+f] = []string{abs}
				files[f] = printDocs(ds, c.Seed("layout"), false)
				x := call(nCall("include", nStr(f)))
				if c.Bool("nested") {
					docs = append(docs, nMapOf("r", x))
				} else {
					docs = append(docs, x)
				}
			case 12: // imported
				f := pick(c, "file", "mod.yisp", "sub/mod.yisp")
				abs := filepath.Join(dir, f)
				ds := []*N{m.anchored("man")}
				setFile(ds, abs)
				in.fs[abs] = &FSFile{Prog: ds}
				files[f] = printDocs(ds, c.Seed("layout"), false)
				docs = append(docs, call(nCall("import", nList(nStr("m"), nStr(f)))), nRef("m.man"))
			case 13: // merged with another of the same type
				docs = append(docs, nMapOf("r", nYisp(nCall("maps.merge", m, m.clone()))))
			case 14: // data that is not written in a program has no type
				x := k.kinds[c.Int(0, len(k.kinds)-1, "which")]
				v := vMapOf("apiVersion", vStr(x.av), "kind", vStr(x.kind), "zzz", vList(vInt(1)))
				abs := filepath.Join(dir, "data.json")
				if entry != 3 {
					in.fs[abs] = &FSFile{Data: []*V{v}, IsJSON: true}
					if in.globs == nil {
						in.globs = map[string][]string{}
					}
					in.globs[filepath.Join(dir, "main.yisp")+"|data.json"] = []string{abs}
					files["data.json"] = v.jsonText()
					docs = append(docs, nYisp(nCall("include", nStr("data.json"))))
				}
				docs = append(docs, m)
			case 15: // the parts of the map come from elsewhere
				docs = append(docs, call(nCall("progn", nMapOf("r", nQuote(nList(flowEmpty(m.clone())))).anchored("w"), nNull())), nMapOf("x", nYisp(nCall("lists.car", nRef("w.r")))))
			case 16: // keys merged in around the written ones
				body := nMapOf()
				full := nMapOf()
				for _, e := range m.Ents {
					if e.Key == "kind" || e.Key == "apiVersion" || e.Key == "$schema" {
						full.Ents = append(full.Ents, e)
					} else {
						body.Ents = append(body.Ents, e)
					}
				}
				mk := &Ent{Merge: true, Val: flowEmpty(body)}
				if c.Bool("merge-first") {
					full.Ents = append([]*Ent{mk}, full.Ents...)
				} else {
					full.Ents = append(full.Ents, mk)
				}
				docs = append(docs, full)
			default: // next to a good one
				docs = append(docs, nMapOf("pair", nList(k.manifest(c, false), m)))
			}
		}
		main := filepath.Join(dir, "main.yisp")
		setFile(docs, main)
		src := printDocs(docs, c.Seed("layout"), c.Chance(10, "noise"))
		files["main.yisp"] = src
		want, rerr, ok := refRun(in, docs, newEnv())
		if !ok {
			c.T.Skip("too long")
		}
		bad := k.verify(in.raw)
		c.Write(dir, files)
		var o Out
		var got []*V
		switch entry {
		case 0, 1:
			o = c.EvalFile(main, opts)
		case 2:
			o = c.EvalOpt(src, main, opts)
		case 3:
			o = c.EvalBytes(src, nil, opts)
		default:
			o = c.EvalFileAny(main, opts)
		}
		c.NonTrivialIf(k.n > 0 && rerr == nil)
		switch {
		case rerr != nil:
			c.Class("unknown-kind")
			if opts.DisableTypeCheck { // without checks, a missing schema may be accepted
				return
			}
			if o.Err == nil {
				c.Violate("expected an error (%v), got %s %v", rerr, o.Text, o.Any)
			}
		case bad > 0 && mode > 1:
			c.Class("ill-typed")
			if o.Err == nil {
				c.Violate("%d ill-typed maps were emitted: %s %v", bad, o.Text, o.Any)
			}
		default:
			c.ClassIf(bad > 0, "ill-typed-unchecked")
			c.ClassIf(bad == 0, "well-typed")
			if o.Err != nil {
				c.Violate("a well-typed build failed: %s", errText(o.Err))
			}
			if entry == 4 {
				c.expectAny(o, want, "native")
				return
			}
			got = c.Docs(o)
			if d := diffDocs(want, got, true); d != "" {
				c.Violate("wrong result: %s\n--- expected ---\n%v\n--- got ---\n%s", d, want, o.Text)
			}
		}
		if o.Err != nil && (o.Text != "" || o.Any != nil && o.Any != any("")) {
			c.Violate("a failed build returned output: %q %v", o.Text, o.Any)
		}
	})
}
