package checks

import (
	"fmt"
	"path/filepath"
	"syscall"
	"testing"
)

// incTree is a directory tree whose files all have content that names them.
type incTree struct {
	*ftree
	c     *C
	dir   string
	in    *Interp
	texts map[string]string
	bad   map[string]bool // files whose inclusion fails
}

func (it *incTree) abs(f string) string { return filepath.Join(it.dir, f) }

// hitsDir tells whether the pattern could also select a directory.
func (it *incTree) hitsDir(p, base string) bool {
	d := &ftree{dirs: it.dirs, files: it.dirs}
	for _, m := range d.matches(p, base, it.dir) {
		if m != "" && has(it.dirs, m) {
			return true
		}
	}
	return false
}

func dirOf(f string) string {
	if d := filepath.Dir(f); d != "." {
		return d
	}
	return ""
}

// data draws plain documents that name the file.
func (it *incTree) data(f string, n int) []*V {
	c := it.c
	var ds []*V
	for i := 0; i < n; i++ {
		d := vMapOf("from", vStr(f), "n", vInt(int64(i)), "x", plainDoc(c, 2))
		if c.Chance(20, "as-list") {
			d = vList(d, genScalarNoTime(c), vMapOf("from", vStr(f), "last", vBool(true)))
		}
		ds = append(ds, d)
	}
	return ds
}

// fill writes a file of the tree.
func (it *incTree) fill(f string) {
	c := it.c
	switch filepath.Ext(f) {
	case ".json":
		d := it.data(f, 1)
		it.in.fs[it.abs(f)] = &FSFile{Data: d}
		it.texts[f] = d[0].jsonText()
		if c.Chance(2, "broken-json") {
			it.texts[f] += "}"
			it.bad[f] = true
			delete(it.in.fs, it.abs(f))
		}
	case ".yaml", ".yml":
		ds := it.data(f, c.Int(1, 3, "docs"))
		it.in.fs[it.abs(f)] = &FSFile{Data: ds}
		var ns []*N
		for _, d := range ds {
			n := nOf(d)
			quoteTimestamps(n)
			ns = append(ns, n)
		}
		it.texts[f] = printDocs(ns, c.Seed("layout"), c.Chance(20, "noise"))
		if c.Chance(2, "broken-yaml") {
			it.texts[f] += "\n---\n[\n"
			it.bad[f] = true
			delete(it.in.fs, it.abs(f))
		}
	case ".yisp":
		it.program(f)
	default:
		s := f + genStr(c, "text")
		if c.Chance(30, "multi-line") {
			s += "\n" + genStr(c, "text2") + pick(c, "end", "", "\n", "\n\n")
		}
		if c.Chance(10, "tricky") {
			s = f + pick(c, "tricky", ": 1\n---\nb: [", "\n!yisp [+, 1]\n", "\n# comment\n", "\t\n", "\n...\n")
		}
		it.in.fs[it.abs(f)] = &FSFile{Text: &s}
		it.texts[f] = s
	}
}

func (it *incTree) program(f string) {
	c := it.c
	g := newGen(c)
	g.left = 25
	docs := []*N{nMapOf("from", nStr(f), "sum", nYisp(nCall("+", nInt(int64(len(f))), nInt(2))))}
	if c.Chance(40, "generated") {
		docs = append(docs, g.program(2, 2)...)
	}
	if c.Chance(40, "own-names") { // names that the including programs may define too
		v := pick(c, "clash", "outer", "lm", "m1", "f")
		switch c.Int(0, 3, "clash-use") {
		case 0:
			docs = append(docs, nMapOf("from", nStr(f), "clash", nRef(v+"?")))
		case 1:
			docs = append(docs, nMapOf("from", nStr(f), "clash", nYisp(nCall("??", nRef(v+"?"), nStr("unset")))))
		case 2:
			docs = append(docs, nMapOf("from", nStr(f), "clash", nYisp(nCall("if", nCall("==", nRef(v+"?"), nNull()), nStr("unset"), nStr("set")))))
		default:
			docs = append(docs, nMapOf("before", nRef(v+"?"), "set", nStr(f).anchored(v), "after", nRef(v)))
		}
	}
	if c.Chance(10, "failing") {
		switch c.Int(0, 3, "failure") {
		case 0:
			docs = append(docs, nYisp(nCall("no.such.operator", nInt(1))))
		case 1:
			docs = append(docs, nRef("undefined-name"))
		case 2:
			docs = append(docs, nYisp(nCall("include", nStr("missing-file.yaml"))))
		}
	}
	base := dirOf(f)
	if c.Chance(35, "nested") {
		for try := 0; try < 4; try++ { // patterns that select data of one directory only
			p := genPattern(c, it.ftree, base, it.dir)
			if it.hitsDir(p, base) {
				continue
			}
			var sel []string
			ok := true
			for _, m := range it.matches(p, base, it.dir) {
				if m == f {
					continue
				}
				ok = ok && filepath.Ext(m) != ".yisp" && (len(sel) == 0 || filepath.Dir(m) == filepath.Dir(sel[0]))
				sel = append(sel, m)
			}
			if !ok || len(sel) == 0 {
				continue
			}
			var abs []string
			for _, m := range sel {
				abs = append(abs, it.abs(m))
			}
			c.Class("nested")
			it.in.globs[it.abs(f)+"|"+p] = abs
			inc := nCall("include", nStr(p))
			if c.Bool("nested-doc") {
				docs = append(docs, nYisp(inc))
			} else {
				docs = append(docs, nMapOf("from", nStr(f), "nested", nYisp(inc)))
			}
			break
		}
	}
	setFile(docs, it.abs(f))
	it.in.fs[it.abs(f)] = &FSFile{Prog: docs}
	it.texts[f] = printDocs(docs, c.Seed("layout"), c.Chance(10, "noise"))
}

func TestC20(t *testing.T) {
	sub(t, "many", 0.02, "directories with up to a few hundred files, included by one pattern or one by one, with a limit of open files far below their number; the sum over all of them is compared; non-trivial: always", func(c *C) {
		c.NonTrivial()
		dir := c.Dir()
		files := map[string]string{}
		n := c.Int(150, 400, "files")
		ext := pick(c, "ext", "yaml", "json", "txt", "yisp")
		inc := nCall("include")
		for i := 0; i < n; i++ {
			f := fmt.Sprintf("d/f%04d.%s", i, ext)
			files[f] = fmt.Sprintf("{\"n\": %d}", i)
			inc.Items = append(inc.Items, nStr(f))
		}
		if c.Bool("pattern") {
			inc = nCall("include", nStr("d/*."+ext))
		}
		files["main.yisp"] = printDocs([]*N{nYisp(inc)}, 0, false)
		c.Write(dir, files)
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			c.Harness("%v", err)
		}
		low := old
		low.Cur = 100
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
			c.Harness("%v", err)
		}
		o := c.EvalFile(filepath.Join(dir, "main.yisp"), memOpts)
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			c.Harness("%v", err)
		}
		if o.Err != nil {
			c.Violate("failed: %.300s", errText(o.Err))
		}
		docs := c.Docs(o)
		if len(docs) != n {
			c.Violate("%d documents of %d files", len(docs), n)
		}
		for i, d := range docs {
			want := vMapOf("n", vInt(int64(i)))
			if ext == "txt" {
				want = vStr(fmt.Sprintf("{\"n\": %d}", i))
			}
			if s := diff(want, d, "", true); s != "" {
				c.Violate("document %d: %s", i, s)
			}
		}
	})
	sub(t, "trees", 1, "random directory trees (unusual names) of programs, YAML, JSON and other files, each naming itself in its documents, and a program in one of the directories with 1..3 includes of 1..3 patterns (literal, *, ?, classes, alternatives, **, .., absolute, directories with index.yisp), as a value, as a document, through variables, functions, an imported module or nested in included programs, evaluated from several working directories; the output is taken apart by argument and file and compared with a reference matcher and interpreter; non-trivial: a pattern selects two files or two kinds are included", func(c *C) {
		dir := c.Dir()
		it := &incTree{ftree: genTree(c, c.Chance(50, "odd")), c: c, dir: dir, in: newInterp(), texts: map[string]string{}, bad: map[string]bool{}}
		it.in.fs, it.in.globs = map[string]*FSFile{}, map[string][]string{}
		for _, d := range it.dirs[1:] {
			if f := filepath.Join(d, "index.yisp"); c.Chance(25, "index") {
				it.files = append(it.files, f)
			}
		}
		from := it.dirs[c.Int(0, len(it.dirs)-1, "program-dir")]
		main := filepath.Join(from, pick(c, "main", "main.yisp", "a.yisp", "zz.yisp"))
		modDir := it.dirs[c.Int(0, len(it.dirs)-1, "module-dir")]
		mod := filepath.Join(modDir, "lib-mod.yisp")
		useMod := c.Chance(30, "use-module")
		if useMod {
			it.files = append(it.files, mod)
		}
		if !has(it.files, main) {
			it.files = append(it.files, main)
		}
		for _, f := range append([]string{}, it.files...) {
			if f != mod && f != main {
				it.fill(f)
			}
		}
		type call struct {
			self string
			args []string
			doc  bool
			n    int // number only
		}
		var calls []call
		var docs, modDocs []*N
		var fail bool
		var why string
		for i := c.Int(1, 3, "calls"); i > 0; i-- {
			cl := call{self: main}
			inMod := useMod && c.Bool("in-module")
			if inMod {
				cl.self = mod
			}
			base := dirOf(cl.self)
			e := nCall("include")
			var pre []*N
			name := fmt.Sprintf("r%d", i)
			byArg := !inMod && c.Chance(15, "by-argument")
			for j := c.Int(1, 3, "patterns"); j > 0; j-- {
				p := genPattern(c, it.ftree, base, dir)
				if it.hitsDir(p, base) {
					p = "*.yaml"
				}
				if c.Chance(10, "by-directory") {
					d := it.dirs[c.Int(0, len(it.dirs)-1, "which")]
					if f := filepath.Join(d, "index.yisp"); d != "" && has(it.files, f) && f != cl.self {
						p, _ = filepath.Rel("/"+base, "/"+d)
						if c.Bool("slash") {
							p += "/"
						}
					}
				}
				ms := it.matches(p, base, dir)
				if len(ms) == 0 && c.Chance(80, "no-miss") {
					continue
				}
				// a cycle: the selected files include the program through the module, or the module includes itself
				if has(ms, main) && cl.self != main || has(ms, mod) && cl.self != mod {
					continue
				}
				cl.args = append(cl.args, p)
				switch {
				case byArg:
					e.Items = append(e.Items, nRef(fmt.Sprintf("p%d", j)))
					pre = append([]*N{nStr(p)}, pre...)
				case c.Chance(15, "variable"):
					v := fmt.Sprintf("%s-p%d", name, j)
					pre2 := nYisp(nCall("progn", nStr(p).anchored(v), nNull()))
					if inMod {
						modDocs = append(modDocs, pre2)
					} else {
						docs = append(docs, pre2)
					}
					e.Items = append(e.Items, nRef(v))
				default:
					e.Items = append(e.Items, nStr(p))
				}
			}
			if len(cl.args) == 0 {
				continue
			}
			switch {
			case inMod:
				modDocs = append(modDocs, nYisp(nCall("lambda", nList(), e)).anchored(name))
				e = nList(nRef("lm." + name))
			case byArg:
				ps := nList()
				for j := 0; j < len(pre); j++ {
					ps.Items = append(ps.Items, nStr(e.Items[1+j].S))
				}
				docs = append(docs, nYisp(nCall("lambda", ps, e)).anchored(name))
				args := nList(nRef(name))
				for j := len(pre) - 1; j >= 0; j-- {
					args.Items = append(args.Items, pre[j])
				}
				e = args
			case c.Chance(10, "fn"):
				docs = append(docs, nYisp(nCall("lambda", nList(), e)).anchored(name))
				e = nList(nRef(name))
			}
			switch c.Int(0, 4, "use") {
			case 0, 1:
				cl.doc = true
				docs = append(docs, nMapOf("begin", nInt(int64(len(calls)))), nYisp(e))
			case 2:
				cl.n = 1
				docs = append(docs, nMapOf("value", nYisp(nCall("lists.length", e))))
			default:
				docs = append(docs, nMapOf("value", nYisp(e)))
			}
			calls = append(calls, cl)
		}
		docs = append(docs, nMapOf("begin", nStr("end")))
		for _, v := range []string{"outer", "lm", "m1", "f"} {
			if c.Chance(30, "defines-"+v) && !(useMod && v == "lm") {
				docs = append([]*N{nYisp(nCall("progn", nStr("of the includer").anchored(v), nNull()))}, docs...)
			}
		}
		if useMod {
			rel, _ := filepath.Rel("/"+from, "/"+mod)
			docs = append([]*N{nYisp(nCall("import", nList(nStr("lm"), nStr(rel))))}, docs...)
			it.texts[mod] = printDocs(append(modDocs, nMapOf("unused", nInt(1))), c.Seed("layout"), false)
		}
		it.texts[main] = printDocs(docs, c.Seed("layout"), c.Chance(10, "noise"))

		// what each file contributes
		content := map[string][]*V{}
		wanted := func(f string) []*V {
			if v, ok := content[f]; ok {
				return v
			}
			var out []*V
			if it.bad[f] {
				fail = true
				why = f + " is malformed"
			} else {
				v, err, ok := refFileRun(it.in, it.abs(f))
				if !ok {
					c.T.Skip("too long")
				}
				if err != nil {
					fail = true
					why = f + ": " + err.Msg
				}
				out = visibleDocs(v)
			}
			content[f] = out
			return out
		}
		var sets [][][]string
		kinds := map[string]bool{}
		for _, cl := range calls {
			base := dirOf(cl.self)
			var ss [][]string
			for _, p := range cl.args {
				all := it.matches(p, base, dir)
				if len(all) == 1 && has(it.dirs, all[0]) && all[0] != "" {
					all = []string{filepath.Join(all[0], "index.yisp")}
				}
				if len(all) == 0 {
					c.Class("no-match")
					fail = true
					why = "nothing matches " + p
				}
				var sel []string
				for _, f := range all {
					if f == cl.self {
						c.Class("matches-itself")
						continue
					}
					kinds[filepath.Ext(f)] = true
					sel = append(sel, f)
					wanted(f)
				}
				c.NonTrivialIf(len(sel) > 1)
				c.ClassIf(len(sel) > 1, "several")
				c.ClassIf(len(sel) == 1, "one")
				ss = append(ss, sel)
			}
			sets = append(sets, ss)
		}
		c.NonTrivialIf(len(kinds) > 1)
		c.Write(dir, it.texts)
		o := evalAnywhere(c, dir, main, memOpts)
		if fail {
			c.Class("error")
			if o.Err == nil {
				c.Violate("%s, but the evaluation succeeds:\n%s", why, o.Text)
			}
			return
		}
		if o.Err != nil {
			c.Violate("failed: %s", errText(o.Err))
		}
		got := c.Docs(o)
		take := func(vs []*V, ss [][]string) []*V {
			for ai, s := range ss {
				left := append([]string{}, s...)
				var order []string
				for len(left) > 0 {
					hit := -1
					for i, f := range left {
						w := content[f]
						if len(w) == 0 {
							hit = i
							break
						}
						if len(w) <= len(vs) && diffDocs(w, vs[:len(w)], false) == "" {
							hit = i
							order = append(order, f)
							vs = vs[len(w):]
							break
						}
					}
					if hit < 0 {
						next := "nothing"
						if len(vs) > 0 {
							next = vs[0].String()
						}
						c.Violate("argument %d selects %q; of %q none comes next: wanted e.g. %v, got %s", ai+1, s, left, content[left[0]], next)
					}
					left = append(left[:hit], left[hit+1:]...)
				}
				if d := dirOrder(order); d != "" {
					c.Violate("argument %d: wrong order: %s", ai+1, d)
				}
			}
			return vs
		}
		for i, cl := range calls {
			if len(got) == 0 {
				c.Violate("the output ends before include %d", i+1)
			}
			d := got[0]
			got = got[1:]
			if cl.doc {
				if diff(vMapOf("begin", vInt(int64(i))), d, "", true) != "" {
					c.Violate("include %d: expected its begin mark, got %s", i+1, d)
				}
				got = take(got, sets[i])
				continue
			}
			var x *V
			if d.K == VMap {
				x, _ = d.M.Get("value")
			}
			n := 0
			for _, s := range sets[i] {
				for _, f := range s {
					n += len(content[f])
				}
			}
			switch {
			case x == nil:
				c.Violate("include %d: got %s", i+1, d)
			case cl.n > 0:
				if x.K != VInt || x.I < int64(n) {
					c.Violate("include %d returns %s documents, want %d", i+1, x, n)
				}
			case x.K != VList:
				c.Violate("include %d: got %s", i+1, d)
			default:
				if rest := take(x.L, sets[i]); len(rest) > 0 {
					c.Violate("include %d: more documents than expected: %v", i+1, rest)
				}
			}
		}
		if len(got) != 1 || diff(vMapOf("begin", vStr("end")), got[0], "", true) != "" {
			c.Violate("more documents than expected: %v", got)
		}
		c.ClassIf(len(kinds) > 1, "several-kinds")
	})
}

// refFileRun is what including one file gives.
func refFileRun(in *Interp, abs string) (out []*V, err *evalErr, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, tl := r.(tooLong); !tl {
				panic(r)
			}
			ok = false
		}
	}()
	in.steps = 0
	out, err = in.file(abs, "/x", newEnv())
	return out, err, true
}
