package checks

import (
	"fmt"
	"io"
	"path/filepath"
	"strings"
	"testing"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

// schemaSite is a set of schema URLs whose pages change over time.
type schemaSite struct {
	c     *C
	w     *webServer
	urls  []string           // without the server's address
	vers  map[string][2]*Sch // the versions a page may have
	cache map[string]*Sch
	now   map[string]*Sch // what the pages answer, nil: failure
	used  map[string]bool
	hits  int // schemas taken from the cache
}

var siteLong = strings.Repeat("long/", 40)

// genSchemaSite draws URLs that are easy to mix up.
func genSchemaSite(c *C) *schemaSite {
	t := &schemaSite{c: c, w: web(c), vers: map[string][2]*Sch{}, cache: map[string]*Sch{}, now: map[string]*Sch{}, used: map[string]bool{}}
	family := [][]string{
		{"/s.json", "/S.json", "/s.json?", "/s.json?a=1", "/s.json?a=2", "/s.json?A=1"},
		{"/a/b", "/a/b/", "/a", "/a/b/c", "/a%2Fb", "/a//b"},
		{"/" + siteLong + "x.json", "/" + siteLong + "y.json", "/" + siteLong, "/" + siteLong + "x.json?1"},
		{"/q?x=???>>>", "/q?x=???>>?", "/q?x=???>>>>", "/q?x=~~~", "/q?x=>>>>>>", "/q?x=??????"},
		{"/" + strings.Repeat("p", 125), "/" + strings.Repeat("p", 126), "/" + strings.Repeat("p", 127) + "q", "/" + strings.Repeat("p", 127) + "r", "/" + strings.Repeat("p", 128), "/" + strings.Repeat("p", 200), "/" + strings.Repeat("p", 200) + "q"},
		{"/schemas/deployment.v1.json", "/schemas/deployment.v2.json", "/schemas/deployment.v1", "/schemas/service.v1.json", "/schemas/x y.json"},
	}[c.Even(6, "family")]
	k := int64(1)
	for i := c.Int(1, 3, "urls"); i > 0; i-- {
		u := family[c.Even(len(family), "url")]
		if c.Chance(15, "other-family") {
			u = "/other.json"
		}
		if has(t.urls, u) {
			continue
		}
		t.urls = append(t.urls, u)
		var vs [2]*Sch
		for j := range vs {
			s := genSch(c, 2, schOpt{})
			if s.Type != "object" || s.Ref != "" {
				s = &Sch{Type: "object", Props: map[string]*Sch{"a": s}, PropNames: []string{"a"}, Addl: c.Int(0, 2, "additional")}
			}
			if s.Props == nil {
				s.Props = map[string]*Sch{}
			}
			if !c.Chance(5, "no-$schema") && s.Props["$schema"] == nil {
				s.Props["$schema"] = &Sch{Type: "string"}
				s.PropNames = append(s.PropNames, "$schema")
			}
			if c.Chance(70, "marked") { // tells the versions and URLs apart
				if s.Props["v"] == nil {
					s.PropNames = append(s.PropNames, "v")
				}
				s.Props["v"] = &Sch{Type: "integer", Min: fp(float64(k)), Max: fp(float64(k))}
				s.Required = append(s.Required, "v")
			}
			k++
			vs[j] = s
		}
		t.vers[u] = vs
	}
	return t
}

// serve gives every page a version or makes it fail.
func (t *schemaSite) serve(failing int) {
	c := t.c
	pages := map[string]page{}
	for _, u := range t.urls {
		key := strings.ReplaceAll(u, " ", "%20")
		s := t.vers[u][c.Even(2, "version")]
		text := s.value().jsonText()
		pg := page{body: text}
		t.now[u] = s
		if c.Chance(failing, "failing") {
			t.now[u] = nil
			how := pick(c, "failure", "404", "500", "302", "circle", "nowhere", "choices", "cut", "no-json", "half", "more", "tail", "list", "string", "ill-typed", "empty")
			c.Class("fails-" + how)
			switch how {
			case "404":
				pg.status = 404
			case "500":
				pg.status = 503
			case "302":
				pg = page{status: 302, loc: "/nothing"}
			case "circle":
				pg = page{status: 302, loc: key}
			case "nowhere": // a redirection without a target
				pg.status = []int{301, 302, 303, 307, 308}[c.Even(5, "code")]
			case "choices":
				pg.status = []int{300, 304, 305, 306}[c.Even(4, "code")]
			case "cut":
				pg.cut = true
			case "no-json":
				pg.body = "<html>Not Found</html>"
			case "half":
				pg.body = text[:1+c.Even(len(text)-1, "at")]
			case "more":
				pg.body = text + pick(c, "rest", "{}", "\n"+text, " x", ",", " null")
			case "tail":
				pg.body = text + pick(c, "rest", "}", "]", "\n}\n")
			case "list":
				pg.body = "[" + text + "]"
			case "string":
				pg.body = "\"" + u + "\""
			case "ill-typed":
				pg.body = pick(c, "ill", `{"type": 5}`, `{"type": ["string"]}`, `{"properties": []}`, `{"type": "object", "minimum": "3"}`, `{"type": "object", "required": "a"}`)
			case "empty":
				pg.body = ""
			}
		} else {
			c.ClassIf(t.cache[u] != nil && t.cache[u] != s, "page-differs-from-cache")
			if c.Chance(15, "layout") {
				pg.body = "\n " + strings.ReplaceAll(text, "{\"type\"", "{ \"type\"") + "\n\n"
			}
			if c.Chance(8, "moved") {
				pages["/moved"+key] = pg
				pg = page{status: 301, loc: "/moved" + key}
			}
		}
		c.Note("%s: %+v", key, pg)
		pages[key] = pg
	}
	t.w.reset(pages)
}

// fetch is what a program gets for a URL.
func (t *schemaSite) fetch(u string) *Sch {
	u, ok := strings.CutPrefix(u, t.w.base)
	if !ok {
		return nil
	}
	t.used[u] = true
	if s := t.cache[u]; s != nil {
		t.hits++
		return s
	}
	if s := t.now[u]; s != nil {
		t.cache[u] = s
		return s
	}
	return nil
}

// build draws a program with maps that name their schema.
func (t *schemaSite) build(k *kube) []*N {
	c := t.c
	var docs []*N
	for i := c.Int(1, 4, "maps"); i > 0; i-- {
		u := t.urls[c.Even(len(t.urls), "which")]
		s := t.cache[u]
		if s == nil {
			s = t.now[u]
		}
		if s == nil || c.Chance(25, "any-version") {
			s = t.vers[u][c.Even(2, "value-of")]
		}
		m := newOMap()
		m.Set("$schema", vStr(t.w.base+u))
		n := k.fill(c, m, s, c.Chance(20, "ill-typed"))
		if c.Chance(4, "no-fetch") {
			bad := pick(c, "bad-url", "no-such-schema.json", "/tmp/no/such", "", "ftp://127.0.0.1/x.json", "http://127.0.0.1:1/x.json", "http://")
			for _, e := range n.Ents {
				if e.Key == "$schema" {
					e.Val = nStr(bad)
				}
			}
		}
		if c.Chance(15, "computed") {
			for _, e := range n.Ents {
				if e.Key == "$schema" {
					e.Val = nYisp(nCall("strings.concat", nStr(e.Val.S[:len(e.Val.S)/2]), nStr(e.Val.S[len(e.Val.S)/2:])))
				}
			}
		}
		switch c.Int(0, 8, "place") {
		case 0, 1, 2:
			docs = append(docs, n)
		case 3:
			docs = append(docs, nMapOf("in", nList(nInt(1), n)))
		case 4: // not evaluated, not fetched
			docs = append(docs, nMapOf("r", nYisp(nCall("if", nBool(c.Bool("cond")), n, nStr("none")))))
		case 5:
			docs = append(docs, nYisp(nCall("lambda", nList(nStr("p")), nQuote(nList(n, nRef("p"))))).anchored(fmt.Sprintf("f%d", i)))
			for j := c.Int(0, 2, "calls"); j > 0; j-- {
				docs = append(docs, nMapOf("r", nYisp(nList(nRef(fmt.Sprintf("f%d", i)), nInt(int64(j))))))
			}
		case 6: // checked when it is emitted only
			docs = append(docs, nYisp(nCall("progn", n.anchored(fmt.Sprintf("v%d", i)), nNull())))
			if c.Bool("emitted") {
				docs = append(docs, nRef(fmt.Sprintf("v%d", i)))
			}
		case 7:
			docs = append(docs, nYisp(nCall("lists.map", nQuote(nList(nInt(1), nInt(2))), nCall("lambda", nList(nStr("p")), n))))
		default:
			docs = append(docs, n, nMapOf("again", n.clone()))
		}
	}
	if c.Chance(8, "error") {
		at := c.Even(len(docs)+1, "error-at")
		docs = append(docs[:at], append([]*N{nMapOf("x", nRef("undefined-name"))}, docs[at:]...)...)
	}
	return docs
}

// asked tells which pages a build requested.
func (t *schemaSite) asked() map[string]int {
	n := map[string]int{}
	for _, r := range t.w.taken() {
		n[strings.ReplaceAll(r, "%20", " ")]++
	}
	return n
}

func TestC38(t *testing.T) {
	sub(t, "histories", 1, "1..5 builds with one cache while the pages of 1..3 similar schema URLs change, fail in 13 ways or recover; programs hold 1..4 maps with $schema (written or computed, nested, in functions, in branches not taken, in variables never emitted) that satisfy one of the versions or nearly, evaluated in one or several engines, also without type checks for untyped manifests; verdict and output are compared with a model of the cache, and a URL once fetched is not requested again; non-trivial: a build finds a schema in the cache and another fetches one", func(c *C) {
		site := genSchemaSite(c)
		k := newKube(c)
		failing := []int{0, 20, 50}[c.Even(3, "failing-share")]
		var e interface {
			EvaluateReaderToYaml(document io.Reader, location string) (string, error)
		}
		fetched := 0
		for round := c.Int(1, 5, "builds"); round > 0; round-- {
			k.fetch = site.fetch
			k.allow = c.Chance(15, "allow-untyped")
			opts := engine.Options{AllowUntypedManifest: k.allow}
			if c.Chance(15, "network-down") {
				site.serve(100)
			} else {
				site.serve(failing)
			}
			if c.Chance(6, "emptied") { // the user removes the cache
				k.dir = c.Dir()
				core.CacheDir = k.dir
				site.cache = map[string]*Sch{}
				c.Class("cache-removed")
			}
			docs := site.build(k)
			in := newInterp()
			in.kube = k
			src := printDocs(docs, c.Seed("layout"), false)
			before := map[string]bool{}
			for u := range site.cache {
				before[u] = true
			}
			hits := site.hits
			want, rerr, ok := refRun(in, docs, newEnv())
			if !ok {
				c.T.Skip("too long")
			}
			bad := k.verify(in.raw)
			c.ClassIf(site.hits > hits, "from-cache")
			loc := filepath.Join(c.Dir(), "main.yisp")
			var o Out
			if e != nil && c.Bool("same-engine") && !k.allow {
				o = c.guard("EvaluateReaderToYaml", func() Out {
					t, err := e.EvaluateReaderToYaml(strings.NewReader(src), loc)
					return Out{Text: t, Err: err}
				})
			} else {
				if e == nil && !k.allow {
					e = engine.NewEngine(opts)
				}
				o = c.EvalOpt(src, loc, opts)
			}
			asked := site.asked()
			c.Note("--- build %s ---\n%s\nrequests: %v\noutcome: %v", loc, src, asked, o)
			switch {
			case rerr != nil:
				c.Class("error")
				if o.Err == nil {
					c.Violate("expected an error (%v), got %s", rerr, o.Text)
				}
			case bad > 0 && !k.allow:
				c.Class("ill-typed")
				if o.Err == nil {
					c.Violate("%d ill-typed maps were emitted: %s", bad, o.Text)
				}
			default:
				c.Class("succeeds")
				if o.Err != nil {
					c.Violate("a well-typed build failed: %s", errText(o.Err))
				}
				if d := diffDocs(want, c.Docs(o), true); d != "" {
					c.Violate("wrong result: %s\n--- expected ---\n%v\n--- got ---\n%s", d, want, o.Text)
				}
			}
			for _, u := range site.urls {
				n := asked[u]
				switch {
				case before[u] && n > 0:
					c.Violate("%s was requested again", u)
				case site.cache[u] != nil && n > 1:
					c.Violate("%s was requested %d times", u, n)
				case !site.used[u] && n > 0:
					c.Violate("%s was requested but no map names it", u)
				case !before[u] && site.cache[u] != nil:
					if n == 0 {
						c.Violate("%s was never requested", u)
					}
					fetched++
				}
			}
			site.used = map[string]bool{}
		}
		c.NonTrivialIf(site.hits > 0 && fetched > 0)
	})
	sub(t, "processes", 0.015, "2..3 runs of `yisp build` (with --cache-dir or the cache below the home directory) while the page of a schema URL fails or changes, or the cache can not be written: exit status and output follow the model of the cache; non-trivial: always", func(c *C) {
		c.NonTrivial()
		site := genSchemaSite(c)
		k := newKube(c)
		k.fetch = site.fetch
		home := c.Dir()
		args := []string{"build"}
		if c.Bool("cache-dir") {
			args = []string{"build", "--cache-dir", filepath.Join(c.Dir(), "not", "yet")}
		}
		for round := c.Int(2, 3, "builds"); round > 0; round-- {
			site.serve([]int{0, 100, 30}[c.Even(3, "failing-share")])
			docs := site.build(k)
			full := c.Chance(20, "disk-full")
			before := map[string]*Sch{}
			for u, s := range site.cache {
				before[u] = s
			}
			in := newInterp()
			in.kube = k
			dir := c.Dir()
			src := printDocs(docs, c.Seed("layout"), false)
			c.Write(dir, map[string]string{"main.yisp": src})
			want, rerr, ok := refRun(in, docs, newEnv())
			if !ok {
				c.T.Skip("too long")
			}
			bad := k.verify(in.raw)
			limit := -1
			if full {
				limit = 0
				c.Note("(nothing can be written to the disk)")
			}
			stdout, stderr, code := runLimited(c, limit, dir, "", []string{"HOME=" + home}, append(append([]string{}, args...), "main.yisp")...)
			c.Note("exit status %d\n%s%s", code, stdout, stderr)
			if full {
				site.cache = before
				if code != 0 { // as it likes when the cache can not be written
					c.Class("disk-full")
					if stdout != "" {
						c.Violate("a failed build printed a result")
					}
					continue
				}
			}
			if rerr != nil || bad > 0 {
				c.Class("fails")
				if code == 0 || stdout != "" {
					c.Violate("should have failed (%v, %d ill-typed maps)", rerr, bad)
				}
				continue
			}
			c.Class("succeeds")
			if code != 0 {
				c.Violate("a well-typed build failed")
			}
			if d := diffDocs(want, c.Docs(Out{Text: stdout}), true); d != "" {
				c.Violate("wrong result: %s", d)
			}
		}
	})
}
