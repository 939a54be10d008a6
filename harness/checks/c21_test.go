package checks

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/totegamma/yisp/engine"
)

// genBody draws the content of a file: text or any bytes.
func genBody(c *C) string {
	switch c.Int(0, 5, "body") {
	case 0:
		b := make([]byte, c.Int(0, 40, "len"))
		for i := range b {
			b[i] = byte(c.Int(0, 255, "byte"))
		}
		return string(b)
	case 1:
		return pick(c, "tricky", "", "\n", "\r\n", "a\r\nb\r\n", "\ufeffbom", "no newline", "two\n\n", "\t- x: !yisp [+, 1]\n", "a: *b\n", "trail  \n", "\x00", "null", "---\na\n...\n")
	case 2:
		return strings.Repeat(genStr(c, "part"), c.Int(1, 400, "times"))
	default:
		return genStr(c, "text")
	}
}

// pathOf returns the absolute path a result talks about.
func pathOf(base, p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return filepath.Join(base, p)
}

func TestC21(t *testing.T) {
	sub(t, "files", 1, "random directory trees (unusual names, hidden files, files of any bytes) and a program in one of the directories that globs with 1..3 patterns (*, ?, classes, alternatives, **, .., absolute) and reads files, directly, through variables, functions and an imported module of another directory; evaluated from several working directories; every result is compared with the disk through a reference matcher; non-trivial: a pattern matches two files or a file is read", func(c *C) {
		dir := c.Dir()
		tr := genTree(c, c.Chance(60, "odd"))
		bodies := map[string]string{}
		for _, f := range tr.files {
			bodies[f] = genBody(c)
		}
		links := map[string]bool{}
		from := tr.dirs[c.Int(0, len(tr.dirs)-1, "program-dir")]
		main := filepath.Join(from, "main.yisp")
		if c.Chance(30, "named-like-data") {
			main = filepath.Join(from, pick(c, "main-name", "prog.yaml.yisp", "a.yisp", "e.yisp"))
			if has(tr.files, main) {
				main = filepath.Join(from, "main.yisp")
			}
		}
		modDir := tr.dirs[c.Int(0, len(tr.dirs)-1, "module-dir")]
		mod := filepath.Join(modDir, "lib-mod.yisp")
		type res struct {
			pats []string
			self string // file that contains the call
			read string
			miss bool
		}
		var rs []res
		out := &N{K: NList, Tag: "!quote"}
		var modDocs, docs []*N
		useMod := false
		var wantMiss bool
		for i := c.Int(1, 3, "calls"); i > 0; i-- {
			r := res{self: main}
			inMod := c.Chance(25, "in-module")
			if inMod {
				r.self = mod
			}
			base := filepath.Dir(r.self)
			if base == "." {
				base = ""
			}
			var call *N
			if c.Chance(35, "read") {
				f := tr.files[c.Int(0, len(tr.files)-1, "read-file")]
				rel, _ := filepath.Rel("/"+base, "/"+f)
				r.read = f
				switch c.Int(0, 9, "form") {
				case 0:
					rel = filepath.Join(dir, f)
				case 1:
					if !strings.HasPrefix(rel, ".") {
						rel = "./" + rel
					}
				case 2:
					if base != "" {
						rel = "../" + filepath.Base(base) + "/" + rel
					}
				case 3:
					if c.Chance(30, "missing") {
						rel += ".missing"
						r.miss, wantMiss = true, true
					}
				}
				call = nCall("files.read", nStr(rel))
			} else {
				call = nCall("files.glob")
				for j := c.Int(1, 3, "patterns")/2 + 1; j > 0; j-- {
					p := genPattern(c, tr, base, dir)
					r.pats = append(r.pats, p)
					call.Items = append(call.Items, nStr(p))
				}
			}
			name := "r" + string(rune('a'+i))
			switch {
			case inMod:
				useMod = true
				if c.Bool("mod-fn") {
					modDocs = append(modDocs, nYisp(nCall("lambda", nList(nStr("u")), call).anchored(name)))
					out.Items = append(out.Items, nYisp(nList(nRef("lm."+name), nInt(1))))
				} else {
					modDocs = append(modDocs, nYisp(nCall("progn", call.anchored(name), nNull())))
					out.Items = append(out.Items, nRef("lm."+name))
				}
			case c.Chance(20, "var-arg") && r.read != "":
				docs = append(docs, nYisp(nCall("progn", call.Items[1].anchored("p"+name), nNull())))
				out.Items = append(out.Items, nYisp(nCall("files.read", nRef("p"+name))))
			case c.Chance(20, "fn"):
				docs = append(docs, nYisp(nCall("lambda", nList(nStr("u")), call).anchored(name)))
				out.Items = append(out.Items, nYisp(nList(nRef(name), nInt(1))))
			default:
				out.Items = append(out.Items, nYisp(call))
			}
			rs = append(rs, r)
		}
		if useMod {
			rel, _ := filepath.Rel("/"+from, "/"+mod)
			docs = append([]*N{nYisp(nCall("import", nList(nStr("lm"), nStr(rel))))}, docs...)
			bodies[mod] = printDocs(modDocs, c.Seed("layout"), false)
			tr.files = append(tr.files, mod)
		}
		docs = append(docs, nMapOf("r", out))
		bodies[main] = printDocs(docs, c.Seed("layout"), false)
		tr.files = append(tr.files, main)
		if c.Chance(15, "links") { // symbolic links to files
			for _, f := range append([]string{}, tr.files...) {
				l := filepath.Join(filepath.Dir(f), "link-"+filepath.Base(f))
				if c.Chance(30, "link") && f != main && f != mod {
					links[l] = true
					tr.files = append(tr.files, l)
					bodies[l] = bodies[f]
				}
			}
		}
		real := map[string]string{}
		for f, b := range bodies {
			if !links[f] {
				real[f] = b
			}
		}
		c.Write(dir, real)
		for l := range links {
			if err := os.Symlink(strings.TrimPrefix(filepath.Base(l), "link-"), filepath.Join(dir, l)); err != nil {
				c.Harness("%v", err)
			}
		}
		for _, d := range tr.dirs {
			if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
				c.Harness("%v", err)
			}
		}
		o := anyAnywhere(c, dir, main)
		if wantMiss {
			c.Class("missing-file")
			if o.Err == nil {
				c.Violate("reading a missing file succeeded: %v", o.Any)
			}
			return
		}
		if o.Err != nil {
			c.Violate("failed: %s", errText(o.Err))
		}
		top, ok := o.Any.([]any)
		if !ok || len(top) != 1 {
			c.Violate("result %v", o.Any)
		}
		m, _ := top[0].(map[string]any)
		l, _ := m["r"].([]any)
		if len(l) != len(rs) {
			c.Violate("result %v", o.Any)
		}
		for i, r := range rs {
			if r.read != "" {
				c.NonTrivial()
				c.Class("read")
				if s, ok := l[i].(string); !ok || s != bodies[r.read] {
					c.Violate("files.read of %q gives %q, on disk %q", r.read, l[i], bodies[r.read])
				}
				continue
			}
			got, ok := l[i].([]any)
			if !ok {
				c.Violate("files.glob gives %v", l[i])
			}
			base := filepath.Dir(r.self)
			if base == "." {
				base = ""
			}
			for _, p := range r.pats {
				var want []string
				for _, f := range tr.matches(p, base, dir) {
					if f != r.self {
						want = append(want, f)
					}
				}
				c.NonTrivialIf(len(want) >= 2)
				c.ClassIf(len(want) == 0, "no-match")
				c.ClassIf(len(want) == 1, "one-match")
				c.ClassIf(len(want) > 1, "several-matches")
				if len(got) < len(want) {
					c.Violate("pattern %q in %q: want %q, got %v", p, r.self, want, got)
				}
				var names []string
				for _, x := range got[:len(want)] {
					e, _ := x.(map[string]any)
					pt, _ := e["path"].(string)
					abs := pathOf(filepath.Join(dir, base), pt)
					f, _ := filepath.Rel(dir, abs)
					if f != r.self && bodies[f] == "" && !has(tr.files, f) {
						c.Violate("pattern %q in %q: path %q is no file of the tree; want %q", p, r.self, pt, want)
					}
					if len(e) != 3 || e["name"] != filepath.Base(f) {
						c.Violate("pattern %q in %q: entry %q of %q", p, r.self, e, f)
					}
					if e["body"] != bodies[f] {
						c.Violate("pattern %q in %q: body of %q is %q, on disk %q", p, r.self, f, e["body"], bodies[f])
					}
					names = append(names, f)
				}
				if d := dirOrder(names); d != "" {
					c.Violate("pattern %q in %q: wrong order, %s", p, r.self, d)
				}
				sort.Strings(names)
				if strings.Join(names, "\x00") != strings.Join(want, "\x00") {
					c.Violate("pattern %q in %q: want %q, got %q", p, r.self, want, names)
				}
				got = got[len(want):]
			}
			if len(got) > 0 {
				c.Violate("patterns %q in %q: %d more entries: %v", r.pats, r.self, len(got), got)
			}
		}
	})
}

// anyAnywhere evaluates a file to native data from some working directory.
func anyAnywhere(c *C, dir, file string) Out {
	defer chdir(c, scratch)
	ev := func(p string) Out { return c.EvalFileAny(p, engine.Options{AllowUntypedManifest: true}) }
	switch c.Int(0, 4, "cwd") {
	case 0:
		return ev(filepath.Join(dir, file))
	case 1:
		chdir(c, dir)
		return ev(file)
	case 2:
		sub := c.Dir()
		chdir(c, sub)
		rel, _ := filepath.Rel(sub, filepath.Join(dir, file))
		return ev(rel)
	case 3:
		chdir(c, filepath.Dir(filepath.Join(dir, file)))
		return ev(filepath.Base(file))
	default:
		chdir(c, filepath.Dir(dir))
		return ev("./" + filepath.Base(dir) + "/" + file)
	}
}
