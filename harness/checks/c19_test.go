package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/totegamma/yisp/engine"
)

func chdir(c *C, d string) {
	if err := os.Chdir(d); err != nil {
		c.Harness("chdir: %v", err)
	}
}

// evalAnywhere evaluates dir/file from some working directory, by absolute or relative path.
func evalAnywhere(c *C, dir, file string, o engine.Options) Out {
	defer chdir(c, scratch)
	full := filepath.Join(dir, file)
	switch c.Int(0, 3, "cwd") {
	case 0:
		return c.EvalFile(full, o)
	case 1:
		chdir(c, dir)
		return c.EvalFile(file, o)
	case 2:
		sub := c.Dir()
		chdir(c, sub)
		rel, _ := filepath.Rel(sub, full)
		return c.EvalFile(rel, o)
	default:
		chdir(c, filepath.Dir(dir))
		return c.EvalFile("./"+filepath.Base(dir)+"/"+file, o)
	}
}

func TestC19(t *testing.T) {
	sub(t, "projects", 1, "projects of up to 8 files in nested directories (modules that import modules, the same module by several names and paths, index.yisp, programs and data that are included), evaluated from different working directories, against a reference interpreter; non-trivial: a definition of an imported module is used", func(c *C) {
		p := genProject(c, c.Dir(), func(g *gen) {
			if c.Chance(8, "with-errors") {
				g.errs = 8
			}
		})
		if len(p.mods) == 0 {
			p.program("extra.yisp", 2, 2, true)
			p.order = p.order[:len(p.order)-1]
			p.order = append([]string{"extra.yisp"}, p.order...)
			p.program("main.yisp", 3, 3, false)
			p.order = p.order[:len(p.order)-1]
		}
		p.finish()
		want, rerr, ok := p.ref()
		if !ok {
			c.T.Skip("too long")
		}
		uses := 0
		for _, d := range p.progs["main.yisp"] {
			d.walk(func(n *N) {
				if n.K == NRef {
					for i := 0; i < len(n.S); i++ {
						if n.S[i] == '.' {
							uses++
							break
						}
					}
				}
			})
		}
		c.progClasses(p.in, rerr)
		c.ClassIf(p.in.used["import"] > 2, "imports>2")
		c.NonTrivialIf(rerr == nil && p.in.used["import"] > 0 && uses > 0)
		c.Expect(evalAnywhere(c, p.dir, "main.yisp", memOpts), want, toErr(rerr), false)
	})
	sub(t, "isolation", 0.4, "modules whose definitions, parameters and free names clash with those of the importer and of each other: a module that uses a name only its importer defines fails; definitions of a module are not visible without its name; importing changes no definition of the importer; module output is dropped; non-trivial: always", func(c *C) {
		dir := c.Dir()
		names := []string{"a", "b", "f", "v"}
		nm := names[c.Int(0, 3, "name")]
		files := map[string]string{}
		in := newInterp()
		in.fs = map[string]*FSFile{}
		add := func(f string, docs ...*N) {
			setFile(docs, filepath.Join(dir, f))
			in.fs[filepath.Join(dir, f)] = &FSFile{Prog: docs}
			files[f] = printDocs(docs, c.Seed("layout"), c.Chance(10, "noise"))
		}
		val := func(s string) *N { return nStr(s) }
		modPath := pick(c, "mod-path", "m.yisp", "d/m.yisp", "d/e/m.yisp", "d/m/index.yisp")
		var mod []*N
		other := pick(c, "other", "zz", "w", "only-here")
		mod = append(mod, val("module value").anchored(nm))
		mod = append(mod, nYisp(nCall("lambda", nList(nStr("p")), nQuote(nList(nRef(nm), nRef("p"))))).anchored("fn"))
		mod = append(mod, nMapOf("output", nStr("never seen")))
		leak := c.Int(0, 5, "leak")
		switch leak {
		case 0: // free name that only the importer has
			mod = append(mod, nMapOf("x", nRef(other)))
		case 1: // inside a function
			mod = append(mod, nYisp(nCall("lambda", nList(nStr("p")), nRef(other))).anchored("bad"))
		case 2:
			mod = append(mod, val("late").anchored(other))
		case 3: // redefinition after the function was made
			mod = append(mod, val("module second value").anchored(nm))
		}
		add(modPath, mod...)
		main := []*N{val("importer value").anchored(nm), val("importer other").anchored(other)}
		imp := nYisp(nCall("import", nList(nStr("m"), nStr("./"+modPath))))
		if modPath == "d/m/index.yisp" && c.Bool("as-dir") {
			imp.Items[1].Items[1].S = "d/m"
			imp.Items[1].Items[1].V = vStr("d/m")
		}
		switch c.Int(0, 4, "name-taken") { // the import gives the name its meaning
		case 0:
			main = append(main, val("was a variable").anchored("m"), nMapOf("was", nRef("m")))
		case 1:
			add("earlier/o.yisp", val("earlier module").anchored(nm), val("only earlier").anchored("gone"))
			main = append(main, nYisp(nCall("import", nList(nStr("m"), nStr("earlier/o.yisp")))), nMapOf("was", nRef("m."+nm)))
		}
		if c.Bool("import-first") {
			main = append([]*N{imp}, main...)
		} else {
			main = append(main, imp)
		}
		if c.Bool("twice") {
			main = append(main, nYisp(nCall("import", nList(nStr("m2"), nStr(modPath)))), nMapOf("m2", nRef("m2."+nm), "f2", nYisp(nList(nRef("m2.fn"), nInt(2)))))
		}
		if c.Bool("indirect") { // through another module in another directory
			rel, _ := filepath.Rel("x/y", modPath)
			add("x/y/via.yisp", nYisp(nCall("import", nList(nStr("m"), nStr(rel)))), val("via value").anchored(nm),
				nYisp(nCall("lambda", nList(), nList(nRef("m.fn"), nRef(nm)))).anchored("call"))
			main = append(main, nYisp(nCall("import", nList(nStr("via"), nStr("x/y/via.yisp")))), nMapOf("via", nYisp(nList(nRef("via.call"))), "vv", nRef("via."+nm), "vm", nRef("via.m."+nm)))
		}
		res := nMapOf("mine", nRef(nm), "theirs", nRef("m."+nm), "call", nYisp(nList(nRef("m.fn"), nRef(nm))), "map", nYisp(nCall("lists.map", nQuote(nList(nInt(1), nInt(2))), nRef("m.fn"))))
		switch leak {
		case 1:
			res.Ents = append(res.Ents, &Ent{Key: "bad", Val: nYisp(nList(nRef("m.bad"), nInt(0)))})
		case 2:
			res.Ents = append(res.Ents, &Ent{Key: "late", Val: nRef("m." + other)}, &Ent{Key: "own", Val: nRef(other)})
		case 4: // the module's function without the module's name
			res.Ents = append(res.Ents, &Ent{Key: "fn", Val: nYisp(nList(nRef("fn"), nInt(0)))})
		case 5:
			res.Ents = append(res.Ents, &Ent{Key: "nothing", Val: nRef(pick(c, "missing", "m.missing", "m.gone", "m.missing?"))})
		}
		main = append(main, res)
		add("main.yisp", main...)
		c.Write(dir, files)
		c.Class(fmt.Sprintf("leak%d", leak))
		c.NonTrivial()
		want, rerr, _ := refRun(in, main, newEnv())
		c.Expect(evalAnywhere(c, dir, "main.yisp", memOpts), want, toErr(rerr), false)
	})
	sub(t, "inside", 0.3, "imports inside sequences, branches, arguments and functions (nested ones too), of modules that define the same names, and uses of their names before, after and around them, against a reference interpreter; non-trivial: a definition of a module is used in a result", func(c *C) {
		dir := c.Dir()
		in := newInterp()
		in.fs = map[string]*FSFile{}
		files := map[string]string{}
		add := func(f string, docs ...*N) {
			setFile(docs, filepath.Join(dir, f))
			in.fs[filepath.Join(dir, f)] = &FSFile{Prog: docs}
			files[f] = printDocs(docs, c.Seed("layout"), false)
		}
		for i := 0; i < 3; i++ {
			add(fmt.Sprintf("m%d.yisp", i), nInt(int64(i)).anchored("v"), nYisp(nCall("lambda", nList(nStr("x")), nList(nStr("+"), nRef("x"), nRef("v")))).anchored("f"))
		}
		names := []string{"m", "n"}
		imp := func() *N {
			call := nCall("import")
			for i := c.Int(1, 2, "tuples"); i > 0; i-- {
				call.Items = append(call.Items, nList(nStr(pick(c, "name", names...)), nStr(fmt.Sprintf("m%d.yisp", c.Even(3, "module")))))
			}
			return call
		}
		var expr func(d int) *N
		expr = func(d int) *N {
			if d == 0 {
				return pick(c, "leaf", nRef(pick(c, "use", names...)+".v"), nRef(pick(c, "use", names...)+".v?"), nInt(7))
			}
			switch c.Even(8, "expr") {
			case 0:
				return nCall("progn", imp(), expr(d-1))
			case 1:
				return nCall("if", imp(), nInt(1), expr(d-1))
			case 2:
				return nCall("if", nBool(c.Bool("cond")), nCall("progn", imp(), expr(d-1)), expr(d-1))
			case 3: // a function called at once
				return nList(nCall("lambda", nList(), expr(d-1)))
			case 4:
				return nList(nCall("lambda", nList(nStr("p")), expr(d-1)), expr(d-1))
			case 5:
				return nList(nRef(pick(c, "use", names...)+".f"), expr(d-1))
			case 6:
				return nCall("lists.cons", expr(d-1), nCall("lists.cons", expr(d-1), nQuote(&N{K: NList, Flow: true})))
			default:
				return nCall("progn", expr(d-1), expr(d-1))
			}
		}
		var main []*N
		for i := c.Int(1, 4, "docs"); i > 0; i-- {
			switch c.Even(4, "doc") {
			case 0:
				main = append(main, nYisp(imp()))
			case 1:
				f := fmt.Sprintf("g%d", i)
				main = append(main, nYisp(nCall("lambda", nList(), expr(3))).anchored(f))
				for j := c.Int(1, 2, "calls"); j > 0; j-- {
					main = append(main, nMapOf(f, nYisp(nList(nRef(f)))))
				}
			default:
				main = append(main, nMapOf("r", nYisp(expr(c.Int(1, 4, "depth")))))
			}
		}
		add("main.yisp", main...)
		c.Write(dir, files)
		want, rerr, ok := refRun(in, main, newEnv())
		if !ok {
			c.T.Skip("too long")
		}
		c.ClassIf(rerr != nil, "error")
		c.NonTrivialIf(rerr == nil && in.used["import"] > 0 && len(want) > 0)
		c.Expect(evalAnywhere(c, dir, "main.yisp", memOpts), want, toErr(rerr), false)
	})
	sub(t, "paths", 0.3, "the same module reached by paths of every form (./, ../, nested, absolute, directory, with spaces, dots, brackets and non-ASCII letters) from files in different directories, missing modules are errors; non-trivial: the module lies in another directory than the importer", func(c *C) {
		dir := c.Dir()
		comp := func(l string) string {
			return pick(c, l, "a", "b c", "d.e", "é日", "[x]", "a*b", "q?", "50%", "it's", "x#y", "-d", "http", "yaml", "x.yisp", "{1}", "a,b", "c:d", "~")
		}
		path := func(l string) string {
			s := ""
			for i := c.Int(0, 2, l+"-depth"); i > 0; i-- {
				s += comp(l) + "/"
			}
			return s
		}
		mdir, idir := path("mod"), path("imp")
		mfile := mdir + pick(c, "mfile", "mod.yisp", "index.yisp", "m d.yisp", "é.yisp", "a[1].yisp", "x.y.yisp")
		ifile := idir + "user.yisp"
		rel, err := filepath.Rel("/"+filepath.Dir(ifile), "/"+mfile)
		if err != nil {
			c.Harness("%v", err)
		}
		if filepath.Base(mfile) == "index.yisp" && filepath.Dir(rel) != "." && c.Bool("dir") {
			rel = filepath.Dir(rel)
		}
		missing := c.Chance(10, "missing")
		if missing {
			rel = pick(c, "miss", rel+"x", "nope/"+rel, "../"+rel+"/nope.yisp")
		}
		if c.Chance(10, "absolute") && !missing {
			rel = filepath.Join(dir, mfile)
		}
		relUser, _ := filepath.Rel("/", "/"+ifile)
		in := newInterp()
		in.fs = map[string]*FSFile{}
		files := map[string]string{}
		add := func(f string, docs ...*N) {
			setFile(docs, filepath.Join(dir, f))
			in.fs[filepath.Join(dir, f)] = &FSFile{Prog: docs}
			files[f] = printDocs(docs, c.Seed("layout"), false)
		}
		add(mfile, nStr("found").anchored("v"), nYisp(nCall("lambda", nList(nStr("x")), nCall("strings.concat", nRef("v"), nRef("x")))).anchored("f"))
		add(ifile, nYisp(nCall("import", nList(nStr("m"), nStr(rel)))), nYisp(nCall("m.f", nStr("!"))).anchored("r"))
		in.fs[filepath.Join(dir, ifile)].Prog[1].Items[0] = nRef("m.f")
		files[ifile] = printDocs(in.fs[filepath.Join(dir, ifile)].Prog, c.Seed("layout"), false)
		main := []*N{nYisp(nCall("import", nList(nStr("u"), nStr(relUser)))), nMapOf("r", nRef("u.r"))}
		if c.Bool("include") {
			main = []*N{nYisp(nCall("include", nStr("./index-main.yisp")))}
			add("index-main.yisp", nYisp(nCall("import", nList(nStr("u"), nStr(relUser)))), nMapOf("r", nRef("u.r")))
		}
		add("main file.yisp", main...)
		c.Write(dir, files)
		c.NonTrivialIf(mdir != idir)
		want, rerr, _ := refRun(in, main, newEnv())
		c.ClassIf(rerr != nil, "missing")
		c.Expect(evalAnywhere(c, dir, "main file.yisp", memOpts), want, toErr(rerr), false)
	})
}
