package checks

import (
	"net/url"
	"path/filepath"
	"strings"
	"testing"

	"github.com/totegamma/yisp/engine"
)

func TestC36(t *testing.T) {
	sub(t, "trees", 1, "projects of up to 9 files (modules, programs, YAML, JSON and text data; directories at several depths, names with spaces; relative references in several forms and absolute URLs, some with a query) served on the loopback network or with only the main program on disk, evaluated 1..3 times in a row while pages fail (404, 500, a redirect to nothing or in circles, a connection that breaks) or work or move (a redirect); compared with a reference interpreter for which a page that fails does not exist; non-trivial: a page other than the main program is read and the evaluation succeeds, or a failing page is reached", func(c *C) {
		w := web(c)
		dir := c.Dir()
		p := newProject(c, dir)
		p.local = map[string]bool{}
		p.base = w.base + pick(c, "prefix", "", "/srv", "/a/b.c/d")
		mixed := c.Chance(35, "main-on-disk")
		if mixed {
			p.local["main.yisp"] = true
		}
		if c.Chance(8, "with-errors") {
			p.tune = func(g *gen) { g.errs = 8 }
		}
		if c.Chance(30, "text") {
			f := pick(c, "text-file", "t.txt", "inc/note", "lib/deep/x y.md", "t.yisp.txt")
			s := f + pick(c, "text", "", "\n", ": 1\n---\n[", "\n!yisp [+, 1]\n") + genStr(c, "text-more")
			p.files[f] = s
			p.in.fs[p.abs(f)] = &FSFile{Text: &s}
			p.incs = append(p.incs, f)
		}
		p.draw()
		query := map[string]string{} // absolute URLs may have a query
		for _, f := range p.order {
			docs := p.progs[f]
			for _, d := range docs {
				d.walk(func(n *N) {
					if n.K == NStr && strings.HasPrefix(n.S, p.base+"/") && !strings.Contains(n.S, "?") && c.Chance(25, "query") {
						q := pick(c, "query-text", "?v=1", "?ref=a/b.json", "?")
						query[n.S+q] = n.S
						n.S += q
						n.V = vStr(n.S)
						c.Class("query")
					}
				})
			}
		}
		noise := c.Chance(10, "noise")
		for _, f := range p.order {
			p.files[f] = printDocs(p.progs[f], c.Seed("layout"), noise)
		}
		all := map[string]*FSFile{}
		for f, d := range p.data {
			all[f] = &FSFile{Data: d}
		}
		for f := range p.files {
			if d := p.progs[f]; d != nil {
				all[f] = &FSFile{Prog: d}
			} else if all[f] == nil {
				all[f] = p.in.fs[p.abs(f)]
			}
		}
		fileOf := map[string]string{}
		for f := range p.files {
			fileOf[p.url(f)] = f
		}
		p.in.local = func(u string) string {
			if v, ok := query[u]; ok {
				u = v
			}
			f, ok := fileOf[u]
			if !ok {
				c.Harness("no page %s", u)
			}
			return p.abs(f)
		}
		if mixed {
			c.Write(dir, map[string]string{"main.yisp": p.files["main.yisp"]})
		}
		var names []string
		for _, f := range append(append([]string{}, p.order...), p.incs...) {
			if !has(names, f) && !p.local[f] {
				names = append(names, f)
			}
		}
		opts := memOpts
		e := engine.NewEngine(opts)
		nontrivial := false
		for round := c.Int(1, 3, "rounds"); round > 0; round-- {
			pages := map[string]page{}
			p.in.fs = map[string]*FSFile{}
			bad := ""
			failing := len(names) > 0 && c.Chance(35, "failing")
			victim := ""
			if failing {
				victim = names[c.Even(len(names), "victim")]
			}
			for _, f := range names {
				u, err := url.Parse(p.url(f))
				if err != nil {
					c.Harness("%v", err)
				}
				key := u.EscapedPath()
				pg := page{body: p.files[f]}
				works := true
				switch {
				case failing && f == victim:
					bad = f
					works = false
					how := pick(c, "failure", "404", "500", "403", "gone", "to-nothing", "circle", "nowhere", "choices", "cut", "cut-all")
					c.Class("fails-" + how)
					switch how {
					case "404":
						pg.status = 404
					case "500":
						pg.status = 500
					case "403":
						pg.status = 403
					case "gone":
						pg = page{status: 410}
					case "to-nothing":
						pg = page{status: 302, loc: key + ".nothing"}
					case "circle":
						pg = page{status: 307, loc: key}
					case "nowhere": // a redirection without a target
						pg.status = []int{301, 302, 303, 307, 308}[c.Even(5, "code")]
					case "choices":
						pg.status = []int{300, 304, 305, 306}[c.Even(4, "code")]
					case "cut":
						pg.cut = true
					case "cut-all": // what arrives is empty
						pg = page{cut: true}
					}
				case c.Chance(8, "moved"):
					to := key + ".moved"
					pages[to] = pg
					pg = page{status: []int{301, 302, 307, 308}[c.Even(4, "code")], loc: to}
					c.Class("moved")
				}
				pages[key] = pg
				for q, v := range query {
					if v == p.url(f) {
						pages[key+q[len(v):]] = pg
					}
				}
				if works {
					p.in.fs[p.abs(f)] = all[f]
				}
			}
			w.reset(pages)
			var want []*V
			var rerr *evalErr
			p.in.used, p.in.steps = map[string]int{}, 0
			if bad == "main.yisp" {
				rerr = fail(nil, "main program")
			} else {
				var ok bool
				want, rerr, ok = p.ref()
				if !ok {
					c.T.Skip("too long")
				}
			}
			at := p.url("main.yisp")
			if mixed {
				at = filepath.Join(dir, "main.yisp")
			}
			var o Out
			if c.Chance(50, "same-engine") {
				o = c.guard("EvaluateFileToYaml "+at, func() Out {
					t, err := e.EvaluateFileToYaml(at)
					return Out{Text: t, Err: err}
				})
			} else {
				o = c.EvalFile(at, opts)
			}
			c.progClasses(p.in, rerr)
			c.Note("requests: %s", strings.Join(w.taken(), " "))
			if rerr == nil && len(w.taken()) > 1 || rerr != nil && bad != "" {
				nontrivial = true
			}
			c.Expect(o, want, toErr(rerr), false)
		}
		c.NonTrivialIf(nontrivial)
	})
	sub(t, "command", 0.02, "`yisp build` of a URL, or of a file that imports from one, that works or fails: exit status and output are those of the same tree on disk; non-trivial: always", func(c *C) {
		c.NonTrivial()
		w := web(c)
		dir := c.Dir()
		p := newProject(c, dir)
		p.local = map[string]bool{}
		p.base = w.base + pick(c, "prefix", "", "/srv")
		p.draw()
		for _, f := range p.order {
			p.files[f] = printDocs(p.progs[f], c.Seed("layout"), false)
			p.in.fs[p.abs(f)] = &FSFile{Prog: p.progs[f]}
		}
		for f, d := range p.data {
			p.in.fs[p.abs(f)] = &FSFile{Data: d}
		}
		p.in.local = func(u string) string {
			for f := range p.files {
				if p.url(f) == u {
					return p.abs(f)
				}
			}
			return u
		}
		pages := map[string]page{}
		fails := c.Chance(30, "fails")
		for f, text := range p.files {
			u, _ := url.Parse(p.url(f))
			pages[u.EscapedPath()] = page{body: text}
			if f == "main.yisp" && fails {
				pages[u.EscapedPath()] = page{body: text, status: 404}
			}
		}
		w.reset(pages)
		want, rerr, ok := p.ref()
		if !ok {
			c.T.Skip("too long")
		}
		if fails {
			rerr = fail(nil, "main program")
		}
		stdout, stderr, code := runBin(c, dir, "", nil, "build", "--allow-untyped-manifest", p.url("main.yisp"))
		if rerr != nil {
			if code == 0 || stdout != "" {
				c.Violate("exit status %d, output:\n%s", code, stdout)
			}
			return
		}
		if code != 0 {
			c.Violate("exit status %d: %s", code, stderr)
		}
		c.Expect(Out{Text: stdout}, want, nil, false)
	})
}
