package checks

// Programs of several files: modules, included programs and plain data.

import (
	"fmt"
	"net/url"
	"path/filepath"
	"strings"
)

type project struct {
	c     *C
	dir   string
	files map[string]string // relative name -> text
	progs map[string][]*N
	order []string
	data  map[string][]*V
	mods  []modT // modules that may be imported
	incs  []string
	in    *Interp
	tune  func(*gen)
	base  string          // URL of the directory when the files are served
	local map[string]bool // files that are on disk all the same
	saw   map[string]bool // modules that note what names of others they see
}

type modT struct {
	file string // relative
	vars []gvar
}

func newProject(c *C, dir string) *project {
	p := &project{c: c, dir: dir, files: map[string]string{}, progs: map[string][]*N{}, data: map[string][]*V{}, in: newInterp(), saw: map[string]bool{}}
	p.in.fs = map[string]*FSFile{}
	p.in.globs = map[string][]string{}
	return p
}

func (p *project) abs(rel string) string { return filepath.Join(p.dir, rel) }

// url is where a file is served.
func (p *project) url(rel string) string {
	u := &url.URL{Path: "/" + rel}
	return p.base + u.EscapedPath()
}

// rel writes the way from one file to another in one of several forms.
func (p *project) rel(from, to string) string {
	if p.base != "" && (p.local[from] || p.c.Chance(15, "url")) {
		return p.url(to)
	}
	if p.base == "" && p.c.Chance(4, "abs-path") {
		return p.abs(to)
	}
	r, err := filepath.Rel(filepath.Dir("/"+from), "/"+to)
	if err != nil {
		p.c.Harness("rel: %v", err)
	}
	if p.base == "" && filepath.Base(to) == "index.yisp" && filepath.Dir(r) != "." && p.c.Chance(60, "dir-path") {
		r = filepath.Dir(r)
		if p.c.Chance(20, "slash") {
			r += "/"
		}
		return r
	}
	switch p.c.Int(0, 7, "path-form") {
	case 0:
		if !strings.HasPrefix(r, ".") {
			r = "./" + r
		}
	case 1:
		if d := filepath.Base(filepath.Dir("/" + from)); d != "/" && d != "." {
			r = "../" + d + "/" + r
		}
	case 2:
		r = "././" + r
	}
	return r
}

var modNames = []string{"m1", "lib", "utils", "mod-2", "std"}

// imports draws import statements of a file and gives the generator the names.
func (p *project) imports(g *gen, file string) []*N {
	if len(p.mods) == 0 {
		return nil
	}
	var docs, seen []*N
	st := nYisp(nCall("import"))
	for i := p.c.Int(0, min(3, len(p.mods)+1), "imports"); i > 0; i-- {
		m := p.mods[p.c.Int(0, len(p.mods)-1, "module")]
		if m.file == file {
			continue
		}
		name := fmt.Sprintf("%s%d", modNames[p.c.Int(0, len(modNames)-1, "mod-name")], i)
		if p.saw[m.file] {
			seen = append(seen, nMapOf("saw", nRef(name+".seen")))
		}
		st.Items = append(st.Items, nList(nStr(name), nStr(p.rel(file, m.file))))
		for _, v := range m.vars {
			g.define(name+"."+v.name, v.ty)
		}
		if p.c.Bool("separate") {
			docs = append(docs, st)
			st = nYisp(nCall("import"))
		}
	}
	if len(st.Items) > 1 {
		docs = append(docs, st)
	}
	return append(docs, seen...)
}

// includes draws an expression that includes some of the files.
func (p *project) includes(file string) *N {
	e := nCall("include")
	for i := p.c.Int(1, 3, "includes"); i > 0; i-- {
		f := p.incs[p.c.Int(0, len(p.incs)-1, "inc")]
		if f == file {
			continue
		}
		e.Items = append(e.Items, nStr(p.rel(file, f)))
	}
	return e
}

func (p *project) program(file string, maxDocs, d int, module bool) []*N {
	g := newGen(p.c)
	g.left = 90
	if p.tune != nil {
		p.tune(g)
	}
	docs := p.imports(g, file)
	if len(p.mods) > 0 && p.c.Chance(35, "looks-around") { // names that only other files define
		seen := &N{K: NMap}
		for i := p.c.Int(1, 4, "looks"); i > 0; i-- {
			m := p.mods[p.c.Int(0, len(p.mods)-1, "look-module")]
			if len(m.vars) == 0 {
				continue
			}
			name := m.vars[p.c.Int(0, len(m.vars)-1, "look-name")].name
			seen.Ents = append(seen.Ents, &Ent{Key: fmt.Sprintf("k%d", i), Val: nRef(name + "?")})
		}
		if p.c.Bool("in-a-function") {
			docs = append(docs, nYisp(nCall("lambda", nList(), nQuote(seen))).anchored("look"), nYisp(nList(nRef("look"))).anchored("seen"))
		} else {
			docs = append(docs, seen.anchored("seen"))
		}
		g.define("seen", tOpaque)
		p.saw[file] = true
	}
	for _, x := range g.program(maxDocs, d) {
		docs = append(docs, x)
		if len(p.incs) > 0 && p.c.Chance(25, "use-include") {
			e := p.includes(file)
			switch p.c.Int(0, 4, "include-at") {
			case 0, 1:
				docs = append(docs, nYisp(e))
			case 2:
				docs = append(docs, nMapOf("inc", nYisp(e)))
			case 3: // in a function that is called later
				name := g.fresh()
				docs = append(docs, nYisp(nCall("lambda", nList(), e)).anchored(name), nMapOf("inc", nYisp(nList(nRef(name)))))
				g.define(name, tOpaque)
			default:
				docs = append(docs, nYisp(nMapOf("inc", nCall("lists.length", e))))
			}
		}
	}
	if !module {
		docs = append(docs, g.dump())
	}
	if module {
		var vs []gvar
		for i := len(g.vars) - 1; i >= 0; i-- {
			v := g.vars[i]
			dup := strings.Contains(v.name, ".")
			for _, w := range vs {
				dup = dup || w.name == v.name
			}
			if !dup {
				vs = append(vs, v)
			}
		}
		p.mods = append(p.mods, modT{file, vs})
	}
	setFile(docs, p.abs(file))
	p.progs[file] = docs
	p.order = append(p.order, file)
	return docs
}

func (p *project) addData(file string, docs []*V) {
	json := strings.HasSuffix(file, ".json")
	p.data[file] = docs
	if json {
		p.files[file] = docs[0].jsonText()
		return
	}
	var ns []*N
	for _, d := range docs {
		n := nOf(d)
		quoteTimestamps(n)
		ns = append(ns, n)
	}
	p.files[file] = printDocs(ns, p.c.Seed("data-layout"), p.c.Chance(20, "data-noise"))
}

// plainDoc draws data that a plain file may hold.
func plainDoc(c *C, d int) *V {
	v := strKeyed(c, d)
	if c.Chance(25, "plain-list") {
		return vList(v, genScalarNoTime(c))
	}
	return v
}

// genProject draws a whole project; its main program is main.yisp.
func genProject(c *C, dir string, tune func(*gen)) *project {
	p := newProject(c, dir)
	p.tune = tune
	p.draw()
	return p
}

func (p *project) draw() {
	c := p.c
	sub := []string{"", "lib/", "lib/deep/", "inc/", "other dir/"}
	at := func() string { return sub[c.Int(0, len(sub)-1, "dir")] }
	for i := c.Int(0, 2, "data-files"); i > 0; i-- {
		if c.Bool("json") {
			f := fmt.Sprintf("%sd%d.json", at(), i)
			p.addData(f, []*V{plainDoc(c, 1)})
			p.incs = append(p.incs, f)
		} else {
			f := fmt.Sprintf("%sd%d.%s", at(), i, pick(c, "ext", "yaml", "yml"))
			var ds []*V
			for j := c.Int(1, 2, "data-docs"); j > 0; j-- {
				ds = append(ds, plainDoc(c, 1))
			}
			p.addData(f, ds)
			p.incs = append(p.incs, f)
		}
	}
	for i := c.atMost(0, 3, 8, "modules"); i > 0; i-- {
		f := fmt.Sprintf("%sm%d.yisp", at(), i)
		if c.Chance(25, "index") {
			f = fmt.Sprintf("%spkg%d/index.yisp", at(), i)
		}
		p.program(f, 3, c.Int(2, 3, "mdepth"), true)
		if c.Chance(25, "also-included") {
			p.incs = append(p.incs, f)
		}
	}
	for i := c.Int(0, 2, "included-programs"); i > 0; i-- {
		f := fmt.Sprintf("%si%d.yisp", at(), i)
		p.program(f, 2, 2, false)
		p.incs = append(p.incs, f)
	}
	p.program("main.yisp", 4, 3, false)
}

// finish prints and writes the files and prepares the reference interpreter.
func (p *project) finish() {
	noise := p.c.Chance(10, "noise")
	for _, f := range p.order {
		p.files[f] = printDocs(p.progs[f], p.c.Seed("layout"), noise)
		p.in.fs[p.abs(f)] = &FSFile{Prog: p.progs[f]}
	}
	for f, d := range p.data {
		p.in.fs[p.abs(f)] = &FSFile{Data: d}
	}
	p.c.Write(p.dir, p.files)
}

// ref is what the main program means.
func (p *project) ref() ([]*V, *evalErr, bool) {
	want, rerr, ok := refRun(p.in, p.progs["main.yisp"], newEnv())
	return want, rerr, ok
}
