package checks

import (
	"os"
	"path/filepath"
	"testing"

	upstream "gopkg.in/yaml.v3"
)

var krmAPI = "krm.yisp.gammalab.net/v1"

// genResource draws an input item.
func genResource(c *C, i int) *V {
	m := newOMap()
	av := vStr(pick(c, "av", "v1", "apps/v1", "example.com/v1", "v1"))
	if c.Chance(25, "av-odd") {
		av = pick(c, "av2", vStr(krmAPI), vStr(krmAPI), vStr(krmAPI+"beta1"), vStr(krmAPI+"alpha1"), vStr("krm.yisp.gammalab.net"), vStr("x."+krmAPI), vStr(krmAPI+" "), vStr("KRM.yisp.gammalab.net/v1"), vStr("krm.yisp.gammalab.net/v2"), vStr(""), vInt(1), vNull(), vList(vStr(krmAPI)))
	}
	put := []func(){
		func() {
			if !c.Chance(6, "no-av") {
				m.Set("apiVersion", av)
			}
		},
		func() {
			if !c.Chance(6, "no-kind") {
				m.Set("kind", vStr(pick(c, "kind", "ConfigMap", "Deployment", "Yisp", "Pod", "ResourceList")))
			}
		},
		func() {
			md := newOMap()
			md.Set("name", vStr(pick(c, "name", "a", "b", "c")))
			if c.Bool("ns") {
				md.Set("namespace", vStr(pick(c, "namespace", "x", "y", krmAPI)))
			}
			if c.Bool("ann") {
				md.Set("annotations", vMapOf("config.kubernetes.io/index", vStr("0"), "internal.config.kubernetes.io/path", vStr("a.yaml"), "k", vStr(genStrNoTime(c, "ann"))))
			}
			if c.Chance(20, "created") {
				md.Set("creationTimestamp", vNull())
			}
			m.Set("metadata", vMap(md))
		},
		func() {
			m.Set(pick(c, "body", "spec", "data"), plainDoc(c, 2))
		},
		func() { m.Set("i", vInt(int64(i))) },
	}
	for _, j := range [][]int{{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {2, 0, 3, 1, 4}}[c.Int(0, 2, "order")] {
		put[j]()
	}
	return vMap(m)
}

func genStrNoTime(c *C, label string) string {
	if s := genStr(c, label); !isTimestamp(s) {
		return s
	}
	return "t"
}

func TestC25(t *testing.T) {
	sub(t, "lists", 1, "yisp krm on resource lists (YAML in many layouts, or JSON) of 0..6 resources of any shape, some of them yisp's own configuration or nearly so, with an inline script, a target file or directory, the URL of a file, or the default target, that returns, counts, maps, filters, merges or ignores the items, evaluates generated programs, includes and imports; malformed lists and failing scripts; exit code and output are compared with a reference interpreter that is given the kept items; non-trivial: an item is kept and the script uses it, or the input is rejected", func(c *C) {
		dir := c.Dir()
		var all, kept []*V
		own := 0
		fails := ""
		for i := c.Int(0, 6, "items"); i > 0; i-- {
			r := genResource(c, i)
			all = append(all, r)
			if av, ok := r.M.Get("apiVersion"); ok && av.K == VStr && av.S == krmAPI {
				own++
				continue
			}
			kept = append(kept, sortKeys(r))
		}
		if c.Chance(4, "not-a-map") {
			all = append(all, pick(c, "item", vInt(1), vStr("x"), vNull(), vList(vMapOf("apiVersion", vStr("v1")))))
			fails = "an item is not a map"
		}
		// the program
		p := newProject(c, dir)
		var docs []*N
		uses := false
		for i := c.Int(1, 3, "parts"); i > 0; i-- {
			items := nRef("items")
			switch c.Int(0, 10, "part") {
			case 0, 1, 2:
				docs = append(docs, items)
				uses = true
			case 3:
				docs = append(docs, nMapOf("n", nYisp(nCall("lists.length", items)), "all", items))
				uses = true
			case 4:
				docs = append(docs, nYisp(nCall("lists.map", items, nCall("lambda", nList(nStr("r")), nCall("maps.merge", nRef("r"), nMapOf("labels", nMapOf("by", nStr("yisp"))))))))
				uses = true
			case 5:
				k := pick(c, "keep", "Pod", "ConfigMap")
				docs = append(docs, nYisp(nCall("lists.as-toplevel", nCall("lists.filter", items, nCall("lambda", nList(nStr("r")), nCall("==", nRef("r.kind?"), nStr(k)))))))
				uses = true
			case 6:
				docs = append(docs, nMapOf("apiVersion", nStr("v1"), "kind", nStr("Added"), "names", nYisp(nCall("lists.map", items, nCall("lambda", nList(nStr("r")), nRef("r.metadata.name"))))))
				uses = true
			case 7: // a program of its own, and names that only it has
				g := newGen(c)
				g.left = 40
				docs = append(docs, g.program(2, 2)...)
			case 8:
				f := pick(c, "inc", "inc.yisp", "sub/inc.yisp")
				ds := []*N{nMapOf("included", nStr(f), "items", nRef("items?"))}
				setFile(ds, p.abs(f))
				p.progs[f] = ds
				p.order = append(uniqWithout(p.order, f), f)
				docs = append(docs, nYisp(nCall("include", nStr("./"+f))))
			case 9:
				f := "mod.yisp"
				ds := []*N{nYisp(nCall("lambda", nList(nStr("l")), nCall("lists.length", nRef("l")))).anchored("count"), nMapOf("x", nInt(1)).anchored("x")}
				setFile(ds, p.abs(f))
				p.progs[f] = ds
				p.order = append(uniqWithout(p.order, f), f)
				docs = append(docs, nYisp(nCall("import", nList(nStr("m"), nStr(f)))), nMapOf("count", nYisp(nList(nRef("m.count"), items))))
				uses = true
			default:
				docs = append(docs, nMapOf("plain", nOf(plainDoc(c, 1))))
				quoteTimestamps(docs[len(docs)-1])
			}
		}
		if c.Chance(12, "failing-script") {
			docs = append(docs, pick(c, "bad", nRef("undefined-name"), nMapOf("x", nYisp(nCall("no.such", nInt(1)))), nMapOf("x", nRef("items.nope"))))
		}
		// where the program is
		spec := nMapOf("allowUntypedManifest", nBool(true))
		prog := ""
		name := "stdin.krm.yaml"
		inline, served := c.Chance(55, "inline"), false
		if !inline {
			name = pick(c, "target-file", "t.yisp", "sub/t.yisp", "index.yisp", "site/index.yisp")
			if name != "t.yisp" && name != "index.yisp" { // references are relative to the file
				for _, d := range docs {
					d.walk(func(n *N) {
						if n.K == NList && len(n.Items) > 1 && (n.Items[0].S == "include" || n.Items[0].S == "import") {
							name = "t.yisp"
						}
					})
				}
			}
		}
		setFile(docs, p.abs(name))
		prog = printDocs(docs, c.Seed("layout"), c.Chance(10, "noise"))
		switch {
		case inline:
			spec.Ents = append(spec.Ents, &Ent{Key: "yisp", Val: nStr(prog)})
			if c.Chance(20, "both") {
				spec.Ents = append(spec.Ents, &Ent{Key: "target", Val: nStr("ignored.yisp")})
			}
		default:
			p.files[name] = prog
			tgt := pick(c, "target", name, "./"+name, p.abs(name))
			if filepath.Base(name) == "index.yisp" {
				tgt = pick(c, "target-dir", tgt, filepath.Dir(name), filepath.Dir(name)+"/")
			}
			served = c.Chance(15, "served")
			if served { // the same files, fetched
				tgt = web(c).base + "/" + name
			}
			if served || name != "index.yisp" || c.Bool("explicit") {
				spec.Ents = append(spec.Ents, &Ent{Key: "target", Val: nStr(tgt)})
			}
		}
		if !inline && c.Chance(4, "missing-target") {
			delete(p.files, name)
			fails = "the target is missing"
		}
		p.finish()
		if served {
			pages := map[string]page{}
			for f, text := range p.files {
				pages["/"+f] = page{body: text}
			}
			web(c).reset(pages)
			_ = os.Remove(p.abs(name)) // so that nothing else can be meant
		}
		// the list
		var input string
		fc := nMapOf("apiVersion", nStr(krmAPI), "kind", nStr("Yisp"), "metadata", nMapOf("name", nStr("x"), "annotations", nMapOf("a", nStr("b"))), "spec", spec)
		ents := []any{"apiVersion", nStr("config.kubernetes.io/v1"), "kind", nStr("ResourceList")}
		if c.Bool("config-first") {
			ents = append(ents, "functionConfig", fc)
		}
		l := nOf(vList(all...))
		l.Flow = len(all) == 0
		if len(all) > 0 || c.Bool("empty-list") {
			ents = append(ents, "items", l)
		}
		if len(ents) < 6 || ents[4] != "functionConfig" {
			ents = append(ents, "functionConfig", fc)
		}
		root := nMapOf(ents...)
		quoteTimestamps(root)
		if c.Chance(25, "as-json") {
			in := litV(root)
			if plainFloats(nil, in) {
				input = printDocs([]*N{root}, c.Seed("layout"), false)
			} else {
				input = in.jsonText()
				var v any
				err := upstream.Unmarshal([]byte(input), &v)
				if w, _ := fromNative(v); err != nil || w == nil || diff(in, w, "", false) != "" { // not every JSON text means the same in YAML
					input = printDocs([]*N{root}, c.Seed("layout"), false)
				}
			}
		} else {
			input = printDocs([]*N{root}, c.Seed("layout"), c.Chance(20, "noise"))
		}
		switch c.Int(0, 29, "malformed") {
		case 0:
			input = pick(c, "text", "[1,", "just text", "- a\n- b\n", "items: 1\nfunctionConfig: {spec: {yisp: 'a: 1'}}\n", "items: {a: {kind: x}}\nfunctionConfig: {spec: {yisp: 'a: 1'}}\n", "functionConfig: 1\nitems: []\n", "functionConfig: {spec: []}\nitems: []\n", "items: []\nfunctionConfig: {spec: {yisp: [a]}}\n", "a: 1\na: 2\nfunctionConfig: {spec: {yisp: 'a: 1'}}\n")
			fails = "malformed input"
		case 1:
			cut := "x: [" + input[len(input)/2:]
			var v any
			if upstream.Unmarshal([]byte(cut), &v) != nil {
				input = cut
				fails = "malformed input"
			}
		}
		c.Note("--- input ---\n%s", input)
		env := newEnv()
		env.vars["items"] = &V{K: VList, L: kept, Doc: true}
		want, rerr, ok := refRun(p.in, docs, env)
		if !ok {
			c.T.Skip("too long")
		}
		if fails == "" && rerr != nil {
			fails = rerr.Msg
		}
		c.NonTrivialIf(fails != "" || uses && len(kept) > 0)
		c.ClassIf(own > 0, "own-config")
		c.ClassIf(fails != "", "fails")
		c.ClassIf(fails == "" && inline, "inline")
		c.ClassIf(fails == "" && !inline && !served, "target")
		c.ClassIf(fails == "" && served, "served")
		stdout, stderr, code := runBin(c, dir, input, nil, "krm")
		if fails != "" {
			if code == 0 || stdout != "" {
				c.Violate("exit %d, but %s; printed %q", code, fails, stdout)
			}
			if stderr == "" {
				c.Violate("no message")
			}
			return
		}
		if code != 0 {
			c.Violate("exit %d: %s", code, stderr)
		}
		c.Expect(Out{Text: stdout}, want, nil, false)
	})
}

func uniqWithout(xs []string, x string) []string {
	var out []string
	for _, y := range xs {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

// litV is the data that a tree of literals spells.
func litV(n *N) *V {
	switch n.K {
	case NList:
		l := vList()
		for _, x := range n.Items {
			l.L = append(l.L, litV(x))
		}
		return l
	case NMap:
		m := newOMap()
		for _, e := range n.Ents {
			m.Set(e.Key, litV(e.Val))
		}
		return vMap(m)
	}
	return n.V
}
