package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

// nativeDocs compares native data with what was expected, keys in any order.
func (c *C) expectAny(o Out, want []*V, what string) {
	v, odd := fromNative(o.Any)
	if odd || v.K != VList {
		c.Violate("%s: not native data: %#v", what, o.Any)
	}
	w := &V{K: VList, L: want}
	if d := diff(w, v, "", false); d != "" {
		c.Violate("%s: %s\n--- expected ---\n%v\n--- got ---\n%v", what, d, w, v)
	}
}

func TestC31(t *testing.T) {
	sub(t, "history", 1, "2..6 programs (sharing names; some failing half-way, some with files and modules, some changed on disk in between) evaluated in one engine in random order with repetitions: each outcome equals that of a fresh engine; non-trivial: at least three evaluations, one of which failed or defined names", func(c *C) {
		dir := c.Dir()
		type prog struct {
			src, file string
			fresh     Out
			vars      map[string]any
		}
		var ps []*prog
		n := c.Int(2, 6, "programs")
		opts := engine.Options{AllowUntypedManifest: true, RenderSpecialObjects: c.Chance(20, "specials"), RenderSources: c.Chance(10, "sources")}
		// names that other programs define must not be visible here
		for i := 0; i < n; i++ {
			g := newGen(c)
			g.left = 60
			g.anchors = 20
			if c.Chance(25, "errors") {
				g.errs = 40
			}
			p := &prog{}
			switch c.Int(0, 4, "program") {
			case 0, 1:
				docs := append(g.program(2, 3), g.dump())
				if c.Chance(30, "late-error") {
					docs = append(docs, nMapOf("x", nRef("undefined-name")))
				}
				p.src = printDocs(docs, c.Seed("layout"), false)
			case 2: // uses names it does not define: null, or an error
				e := &N{K: NMap}
				for _, nm := range globalNames {
					if c.Bool("probe") {
						e.Ents = append(e.Ents, &Ent{Key: nm, Val: nRef(nm + "?")})
					}
				}
				if c.Chance(30, "undefined") || len(e.Ents) == 0 {
					e.Ents = append(e.Ents, &Ent{Key: "u", Val: nRef(globalNames[c.Int(0, len(globalNames)-1, "u")])})
				}
				p.src = printDocs([]*N{e}, c.Seed("layout"), false)
			case 3: // imports a module
				f := fmt.Sprintf("m%d.yisp", c.Int(0, 2, "module"))
				text := printDocs([]*N{nStr("v" + f).anchored("v"), nYisp(nCall("lambda", nList(nStr("x")), nRef("v"))).anchored("f")}, 0, false)
				if err := os.WriteFile(filepath.Join(dir, f), []byte(text), 0o644); err != nil {
					c.Harness("%v", err)
				}
				p.file = fmt.Sprintf("main%d.yisp", i)
				p.src = "!yisp\n- import\n- [m, " + f + "]\n---\nv: *m.v\nw: !yisp [*m.f, 1]\nq: *a?\n"
			default: // host variables
				v := genMapV(c, 1, "hostvar")
				p.vars = map[string]any{pick(c, "host-name", "a", "x", "hv"): v.native()}
				p.src = "a: *a?\nx: *x?\nhv: *hv?\n---\n&y\nk: *a?\n"
			}
			ps = append(ps, p)
		}
		run := func(p *prog, e interface {
			EvaluateFileToYaml(string) (string, error)
			EvaluateBytesToYaml([]byte, map[string]any) (string, error)
		}) Out {
			return c.guard("evaluate "+p.file, func() Out {
				if p.file != "" {
					s, err := e.EvaluateFileToYaml(filepath.Join(dir, p.file))
					return Out{Text: s, Err: err}
				}
				s, err := e.EvaluateBytesToYaml([]byte(p.src), p.vars)
				return Out{Text: s, Err: err}
			})
		}
		for i, p := range ps {
			c.Note("--- program %d %s %v ---\n%s", i, p.file, p.vars, p.src)
			if p.file != "" {
				if err := os.WriteFile(filepath.Join(dir, p.file), []byte(p.src), 0o644); err != nil {
					c.Harness("%v", err)
				}
			}
			p.fresh = run(p, engine.NewEngine(opts))
		}
		e := engine.NewEngine(opts)
		steps := c.Int(2, 10, "steps")
		failed := 0
		var seq []string
		for i := 0; i < steps; i++ {
			k := c.Int(0, n-1, "which")
			p := ps[k]
			if p.file != "" && c.Chance(30, "module-changes") { // the next evaluation reads the files again
				f := filepath.Join(dir, "m0.yisp")
				_ = os.WriteFile(f, []byte(fmt.Sprintf("&v changed%d\n--- !yisp\n&f\n- lambda\n- [x]\n- *v\n", i)), 0o644)
				p.fresh = run(p, engine.NewEngine(opts))
				for _, q := range ps {
					if q != p && q.file != "" {
						q.fresh = run(q, engine.NewEngine(opts))
					}
				}
				seq = append(seq, "change")
			}
			seq = append(seq, fmt.Sprint(k))
			o := run(p, e)
			if o.Err != nil {
				failed++
			}
			if (o.Err == nil) != (p.fresh.Err == nil) || o.Text != p.fresh.Text || o.Err != nil && errText(o.Err) != errText(p.fresh.Err) {
				c.Violate("after evaluating %s: program %d gives\n%s\n--- in a fresh engine ---\n%s", strings.Join(seq, ","), k, o, p.fresh)
			}
		}
		c.Note("order: %s", strings.Join(seq, ","))
		c.ClassIf(failed > 0, "with-failures")
		c.NonTrivialIf(steps >= 3)
	})
	sub(t, "changing-files", 0.4, "a program that reads a text, globs texts, includes plain data and a program and imports a module, evaluated 2..6 times in one engine, in fresh ones, or as native data, while the files are rewritten in between (mostly with other content of the same length, sometimes with the modification time kept, or removed): every evaluation shows what the files contain then; non-trivial: a rewrite of the same length", func(c *C) {
		dir := c.Dir()
		word := func() string {
			w := ""
			for i := 0; i < 3; i++ {
				w += string(rune('a' + c.Even(26, "letter")))
			}
			return "k" + w
		}
		name := map[string]string{"t": "t.txt", "g": "g/x.txt", "y": "y.yaml", "j": "j.json", "p": "p.yisp", "m": "m.yisp"}
		names := []string{"t", "g", "y", "j", "p", "m"}
		text := map[string]func(w string) string{
			"t": func(w string) string { return w }, "g": func(w string) string { return w },
			"y": func(w string) string { return "d: " + w + "\n" }, "j": func(w string) string { return `{"d":"` + w + `"}` },
			"p": func(w string) string { return "d: !yisp [strings.concat, " + w + ", '']\n" }, "m": func(w string) string { return "&v " + w + "\n" },
		}
		src := "!yisp\n- import\n- [m, m.yisp]\n---\n" +
			"t: !yisp [files.read, t.txt]\ni: !yisp [include, t.txt]\ng: !yisp\n- lists.map\n- !yisp [files.glob, g/*.txt]\n- !yisp\n  - lambda\n  - [f]\n  - *f.body\n" +
			"y: !yisp [include, y.yaml]\nj: !yisp [include, j.json]\np: !yisp [include, p.yisp]\nm: *m.v\n"
		now := map[string]string{}
		write := func(k, w string) {
			now[k] = w
			f := filepath.Join(dir, name[k])
			st, err := os.Stat(f)
			c.Write(dir, map[string]string{name[k]: text[k](w)})
			if err == nil && c.Chance(30, "keep-time") {
				_ = os.Chtimes(f, st.ModTime(), st.ModTime())
			}
		}
		for _, k := range names {
			write(k, word())
		}
		c.Write(dir, map[string]string{"main.yisp": src})
		e := engine.NewEngine(memOpts)
		file := filepath.Join(dir, "main.yisp")
		for i := c.Int(2, 6, "evaluations"); i > 0; i-- {
			want, missing := newOMap(), false
			for _, k := range names {
				w, ok := now[k]
				missing = missing || !ok && k != "g"
				switch {
				case k == "g" && !ok:
					want.Set(k, &V{K: VList})
				case k == "g":
					want.Set(k, vList(vStr(w)))
				case k == "y" || k == "j" || k == "p":
					want.Set(k, vList(vMapOf("d", vStr(w))))
				default:
					want.Set(k, vStr(w))
				}
			}
			want.Set("i", vList(vStr(now["t"])))
			var werr error
			if missing {
				werr = fmt.Errorf("a file is missing")
			}
			switch c.Int(0, 3, "engine") {
			case 0:
				c.Expect(c.EvalFile(file, memOpts), []*V{vMap(want)}, werr, false)
			case 1:
				o := c.EvalFileAny(file, memOpts)
				if (o.Err != nil) != missing {
					c.Violate("EvaluateFileToAny: %v", o)
				}
				if !missing {
					c.expectAny(o, []*V{vMap(want)}, "EvaluateFileToAny")
				}
			default:
				c.Expect(c.guard("evaluate", func() Out {
					s, err := e.EvaluateFileToYaml(file)
					return Out{Text: s, Err: err}
				}), []*V{vMap(want)}, werr, false)
			}
			for _, k := range names {
				switch {
				case now[k] == "" || c.Chance(50, "rewrite"):
					w := word()
					if c.Chance(15, "longer") {
						w += word()
					}
					c.NonTrivialIf(len(w) == len(now[k]))
					write(k, w)
				case c.Chance(4, "remove"):
					_ = os.Remove(filepath.Join(dir, name[k]))
					delete(now, k)
				}
			}
			c.Note("files: %v", now)
		}
	})
	sub(t, "changing-schemas", 0.3, "a typed manifest evaluated 2..6 times in one engine or in fresh ones, while its schema, the schema it refers to, or the schema its kind stands for are rewritten, removed or taken from another cache directory in between: every evaluation checks it against the schemas as they are then; non-trivial: both outcomes occur", func(c *C) {
		dirs := []string{c.Dir(), c.Dir()}
		old := core.CacheDir
		defer func() { core.CacheDir = old }()
		types := []string{"integer", "string", "boolean", "null"}
		vals := []*V{vInt(1), vStr("s"), vBool(true), vNull()}
		which := c.Even(4, "value")
		src := printDocs([]*N{nOf(vMapOf("apiVersion", vStr("v1"), "kind", vStr("K"), "x", vals[which]))}, c.Seed("layout"), false)
		if c.Chance(30, "defaults") { // by a call of a function, read by the next document
			src = printDocs([]*N{nYisp(nCall("progn", nOf(vMapOf("apiVersion", vStr("v1"), "kind", vStr("K"), "x", vals[which])).anchored("m"), nRef("m")))}, c.Seed("layout"), false)
		}
		type state struct {
			id   string    // what the kind stands for, "" if unknown
			ty   [2]string // the type of x in the schemas A and B
			gone [2]bool
		}
		now := []*state{{}, {}}
		write := func(d int) {
			st := now[d]
			files := map[string]string{}
			for i, id := range []string{"A", "B"} {
				if c.Chance(60, "rewrite") || st.ty[i] == "" {
					st.ty[i] = types[c.Even(4, "type")]
					if c.Bool("fits") {
						st.ty[i] = types[which]
					}
					st.gone[i] = false
					x := `{"type":"` + st.ty[i] + `"}`
					if c.Chance(40, "by-reference") {
						files["schemas/X"+id+".json"] = x
						x = `{"$ref":"#/definitions/X` + id + `"}`
					}
					files["schemas/"+id+".json"] = `{"type":"object","properties":{"apiVersion":{"type":"string"},"kind":{"type":"string"},"x":` + x + `}}`
				} else if c.Chance(15, "remove") {
					_ = os.Remove(filepath.Join(dirs[d], "schemas", id+".json"))
					st.gone[i] = true
				}
			}
			if st.id == "" || c.Chance(40, "other-schema") {
				st.id = pick(c, "id", "A", "B")
				files["gvk/_v1_K.txt"] = st.id
			}
			c.Write(dirs[d], files)
		}
		write(0)
		write(1)
		e := engine.NewEngine(engine.Options{})
		good, bad := 0, 0
		var log []string
		for i := c.Int(2, 6, "evaluations"); i > 0; i-- {
			d := c.Even(2, "directory")
			if c.Chance(70, "first-directory") {
				d = 0
			}
			core.CacheDir = dirs[d]
			st := now[d]
			k := map[string]int{"A": 0, "B": 1}[st.id]
			fits := !st.gone[k] && st.ty[k] == types[which]
			fresh := c.Bool("fresh-engine")
			log = append(log, fmt.Sprintf("directory %d: K is %s, x is of type %s, gone %v, fresh engine %v", d, st.id, st.ty[k], st.gone[k], fresh))
			ev := e
			if fresh {
				ev = engine.NewEngine(engine.Options{})
			}
			o := c.guard("evaluate", func() Out {
				s, err := ev.EvaluateBytesToYaml([]byte(src), nil)
				return Out{Text: s, Err: err}
			})
			if fits {
				good++
			} else {
				bad++
			}
			if fits != (o.Err == nil) {
				c.Violate("%s\n%s\n--- outcome ---\n%s", src, strings.Join(log, "\n"), o)
			}
			write(c.Even(2, "changed"))
		}
		c.Note("%s\n%s", src, strings.Join(log, "\n"))
		c.NonTrivialIf(good > 0 && bad > 0)
		c.ClassIf(good > 0, "fits")
		c.ClassIf(bad > 0, "does-not-fit")
	})
	sub(t, "entry-points", 0.7, "a random program (data variables of the file or of the host, functions, failing ones too) evaluated from a file, a reader and bytes to YAML and from the file to native data: all give the data of the reference interpreter, or all fail; non-trivial: two or more documents or a nested document", func(c *C) {
		dir := c.Dir()
		g := newGen(c)
		if c.Chance(15, "with-errors") {
			g.errs = 20
		}
		docs := append(g.program(4, 3), g.dump())
		file := filepath.Join(dir, "main.yisp")
		setFile(docs, file)
		src := printDocs(docs, c.Seed("layout"), c.Chance(10, "noise"))
		in := newInterp()
		want, rerr, ok := refRun(in, docs, newEnv())
		if !ok {
			c.T.Skip("too long")
		}
		c.Write(dir, map[string]string{"main.yisp": src})
		c.NonTrivialIf(rerr == nil && (len(want) > 1 || len(want) == 1 && want[0].depth() > 1))
		c.ClassIf(rerr != nil, "fails")
		c.Expect(c.EvalFile(file, memOpts), want, toErr(rerr), true)
		c.Expect(c.EvalOpt(src, memLoc, memOpts), want, toErr(rerr), true)
		c.Expect(c.EvalBytes(src, nil, memOpts), want, toErr(rerr), true)
		o := c.EvalFileAny(file, memOpts)
		if (o.Err == nil) != (rerr == nil) {
			c.Violate("EvaluateFileToAny: %v, but the reference says %v", o, rerr)
		}
		if o.Err == nil {
			c.expectAny(o, want, "EvaluateFileToAny")
		}
	})
	sub(t, "plain-files", 0.2, "plain .yaml and .json files evaluated by EvaluateFileToYaml and EvaluateFileToAny give the same data; non-trivial: always", func(c *C) {
		dir := c.Dir()
		p := newProject(c, dir)
		f := pick(c, "file", "d.yaml", "d.json", "d.yml")
		var ds []*V
		for i := c.Int(1, 3, "docs"); i > 0; i-- {
			ds = append(ds, strKeyed(c, 2))
			if f == "d.json" {
				break
			}
		}
		p.addData(f, ds)
		c.Write(dir, p.files)
		c.NonTrivial()
		o := c.EvalFile(filepath.Join(dir, f), memOpts)
		c.Expect(o, ds, nil, false)
		a := c.EvalFileAny(filepath.Join(dir, f), memOpts)
		if a.Err != nil {
			c.Violate("EvaluateFileToAny: %s", errText(a.Err))
		}
		c.expectAny(a, ds, "EvaluateFileToAny")
	})
	sub(t, "host-variables", 0.3, "host-supplied data is what the program sees (value, paths into it, operators on it), the host's own maps and lists are unchanged, and a later evaluation without them does not see them; non-trivial: nested data", func(c *C) {
		vars := map[string]any{}
		vals := map[string]*V{}
		for i := c.Int(1, 3, "vars"); i > 0; i-- {
			nm := globalNames[c.Int(0, 5, "name")]
			v := genVal(c, 3, "value")
			if c.Bool("map") {
				v = genMapV(c, 2, "value")
			}
			vars[nm], vals[nm] = v.native(), v
		}
		keep := map[string]*V{}
		for k, x := range vars {
			keep[k], _ = fromNative(x)
		}
		out, m := &N{K: NMap}, newOMap()
		for _, nm := range globalNames[:6] {
			out.Ents = append(out.Ents, &Ent{Key: nm, Val: nRef(nm + "?")})
			if v, ok := vals[nm]; ok {
				m.Set(nm, v)
				c.NonTrivialIf(v.depth() > 0)
				if v.K == VMap {
					for _, k := range v.M.keys {
						if isStep(k) {
							out.Ents = append(out.Ents, &Ent{Key: nm + "." + k, Val: nRef(nm + "." + k)})
							m.Set(nm+"."+k, v.M.m[k])
						}
					}
					out.Ents = append(out.Ents, &Ent{Key: "merged " + nm, Val: nYisp(nCall("maps.merge", nRef(nm), nQuote(nMapOf("zzz", nInt(1)))))})
					x := v.clone()
					x.M.Set("zzz", vInt(1))
					m.Set("merged "+nm, x)
				}
			} else {
				m.Set(nm, vNull())
			}
		}
		docs := []*N{out}
		src := printDocs(docs, c.Seed("layout"), false)
		c.Note("--- program ---\n%s\nvars: %v", src, vals)
		e := engine.NewEngine(memOpts)
		ev := func(vs map[string]any) Out {
			return c.guard("EvaluateBytesToYaml", func() Out {
				s, err := e.EvaluateBytesToYaml([]byte(src), vs)
				return Out{Text: s, Err: err}
			})
		}
		c.Expect(ev(vars), []*V{vMap(m)}, nil, false)
		for k, x := range vars {
			if y, odd := fromNative(x); odd || !sameUnordered(y, keep[k]) {
				c.Violate("the host's variable %s was changed: %v, was %v", k, x, keep[k])
			}
		}
		none := "p: [1]\n"
		for _, nm := range globalNames[:6] {
			none += nm + ": *" + nm + "?\n"
		}
		o := c.guard("EvaluateBytesToYaml", func() Out { s, err := e.EvaluateBytesToYaml([]byte(none), nil); return Out{Text: s, Err: err} })
		w := vMapOf("p", vList(vInt(1)))
		for _, nm := range globalNames[:6] {
			w.M.Set(nm, vNull())
		}
		c.Expect(o, []*V{w}, nil, true)
	})
}
