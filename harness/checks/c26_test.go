package checks

import (
	"encoding/json"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

// openAPI is the document that declares the kinds and definitions.
func (k *kube) openAPI(c *C) string {
	defs := newOMap()
	for _, id := range k.ids {
		v := k.defs[id].value()
		l := vList()
		for _, x := range k.kinds {
			if x.id != id {
				continue
			}
			g, ver, ok := strings.Cut(x.av, "/")
			if !ok {
				g, ver = "", x.av
			}
			e := newOMap()
			for _, f := range pick(c, "gvk-order", []string{"group", "version", "kind"}, []string{"kind", "group", "version"}) {
				e.Set(f, vStr(map[string]string{"group": g, "version": ver, "kind": x.kind}[f]))
			}
			if c.Chance(10, "odd-gvk") { // names nothing, and must not be in the way of the others
				odd := vMap(e).clone().M
				odd.Set("kind", vStr("Odd"))
				switch n := c.Int(0, 4, "odd"); n {
				case 3:
					l.L = append(l.L, pick(c, "no-map", vStr(x.kind), vNull(), vInt(1), vList(vStr(x.kind))))
				case 4:
					l.L = append(l.L, vMap(newOMap()))
				default:
					odd.Del([]string{"group", "version", "kind"}[n])
					l.L = append(l.L, vMap(odd))
				}
			}
			l.L = append(l.L, vMap(e))
		}
		if len(l.L) > 0 || c.Chance(10, "empty-gvk") {
			v.M.Set("x-kubernetes-group-version-kind", l)
		}
		if c.Chance(30, "description") {
			v.M.Set("description", vStr(genStr(c, "desc")))
		}
		if c.Chance(10, "unknown-field") {
			v.M.Set("x-unknown", genMapV(c, 1, "x"))
			v.M.Set("example", vInt(pick(c, "example", int64(1<<53+1), -(1<<62)+1, 1<<62+3)))
		}
		defs.Set(id, v)
	}
	root := newOMap()
	root.Set("swagger", vStr("2.0"))
	if c.Bool("info-first") {
		root.Set("info", vMapOf("title", vStr("Kubernetes"), "version", vStr("v1.30.0")))
	}
	root.Set("definitions", vMap(defs))
	root.Set("paths", vMapOf("/api/", vMapOf("get", vMapOf("definitions", vStr("not here")))))
	return vMap(root).jsonText()
}

func TestC26(t *testing.T) {
	sub(t, "fetch", 1, "histories of 1..3 runs of yisp cache-kube-schemas against a stand-in kubectl that serves generated OpenAPI documents (1..8 definitions with references, recursion, constraints, several kinds per definition, none, the core group), replacing earlier ones, or fails, serves malformed or empty documents, or is not confirmed (cache in HOME or given by --cache-dir); after each the definitions are used: manifests of every kind and values of every definition, conforming or changed at one place, against a reference validator; non-trivial: definitions were fetched and used", func(c *C) {
		s := newStubs(c, "kubectl")
		work := c.Dir()
		base := newKube(c)
		env := s.env()
		var flags []string
		if core.CacheDir == "" {
			env = append(env, "HOME="+os.Getenv("HOME"))
		} else {
			env = append(env, "HOME="+work)
			flags = []string{"--cache-dir", core.CacheDir}
			if c.Bool("relative") {
				rel, _ := filepath.Rel(work, core.CacheDir)
				flags = []string{"--cache-dir=" + rel}
			}
		}
		for round := c.Int(1, 3, "rounds"); round > 0; round-- {
			k := genKubeIn(c, base)
			text := k.openAPI(c)
			s.clear()
			stdin := pick(c, "confirm", "\n", "\n", "\n\n")
			exit, errs, fails := "", pick(c, "stderr", "", "Warning: old\n"), ""
			switch c.Int(0, 24, "failure") {
			case 0:
				exit, fails = pick(c, "exit", "1", "2", "kill"), "kubectl fails"
				errs = "connection refused\n"
				if c.Bool("no-output") {
					text = ""
				}
			case 1:
				stdin, fails = "", "not confirmed"
			case 2:
				fails = "malformed"
				text = pick(c, "malformed", "", "[]", "null", "1", "\"definitions\"", "{}", "{\"definitions\": {}}", "{\"definitions\": null}", "{\"definitions\": []}", "{\"definitions\": {\"A\": 1}}", "{\"definitions\": {\"A\": null}}", "<html>Forbidden</html>", "Error from server\n", text[:len(text)/2], text[:len(text)-1], text+"x", text+"{}", "x"+text, "{\"kind\": \"Status\", \"status\": \"Failure\"}")
			}
			s.set("kubectl", text, errs, exit)
			c.Note("round: %s\n%s", fails, text)
			stdout, stderr, code := runBin(c, work, stdin, env, append([]string{"cache-kube-schemas"}, flags...)...)
			runs := s.runs()
			c.ClassIf(fails != "", fails)
			if fails != "" {
				if code == 0 {
					c.Violate("exit 0, but %s\n%s", fails, stdout)
				}
				if fails == "not confirmed" && len(runs) > 0 {
					c.Violate("ran without confirmation: %v", runs)
				}
				continue
			}
			if code != 0 {
				c.Violate("exit %d: %s", code, stderr)
			}
			if len(runs) != 1 || runs[0].String() != (stubRun{name: "kubectl", args: []string{"get", "--raw", "/openapi/v2"}}).String() {
				c.Violate("kubectl was run like this: %v", runs)
			}
			c.NonTrivial()
			// every definition is stored as it is
			served := exactJSON(c, text).(map[string]any)["definitions"].(map[string]any)
			for _, id := range k.ids {
				stored, err := os.ReadFile(filepath.Join(k.dir, "schemas", id+".json"))
				if err != nil {
					c.Violate("%v", err)
				}
				got, _ := exactJSON(c, string(stored)).(map[string]any)
				delete(got, "$id")
				if !reflect.DeepEqual(served[id], any(got)) {
					c.Violate("%s is stored as\n%s", id, stored)
				}
			}
			// every kind
			for _, x := range k.kinds {
				for j := c.Int(1, 3, "manifests"); j > 0; j-- {
					one := *k
					one.kinds = []kind{x}
					one.urls = nil
					m := one.manifestOf(c, x, c.Bool("bad"))
					in := newInterp()
					in.kube = k
					want, rerr, ok := refRun(in, []*N{m}, newEnv())
					if !ok {
						c.T.Skip("too long")
					}
					bad := k.verify(in.raw)
					src := printDocs([]*N{m}, c.Seed("layout"), false)
					c.Note("%s", src)
					o := c.EvalOpt(src, memLoc, engine.Options{})
					switch {
					case rerr != nil || bad > 0:
						c.Class("ill-typed")
						if o.Err == nil {
							c.Violate("an ill-typed %s %s was accepted:\n%s", x.av, x.kind, o.Text)
						}
					default:
						c.Class("well-typed")
						c.Expect(o, want, nil, false)
					}
				}
			}
			// every definition by its name
			for _, id := range k.ids {
				d := k.defs[id]
				v := d.good(c, 3)
				if v != nil && c.Bool("near") {
					v = d.nearMiss(c, v.clone(), 3)
				}
				if v == nil || hasFun(v) || c.Chance(50, "skip") {
					continue
				}
				call := nCall("types.assert", nCall("schema", nMapOf("type", nStr("array"), "items", nMapOf("$ref", nStr("#/definitions/"+id)))), nQuote(nList(flowEmpty(nOf(v)))))
				src := printDocs([]*N{nMapOf("r", nYisp(call))}, c.Seed("layout"), false)
				c.Note("%s", src)
				o := c.EvalOpt(src, memLoc, memOpts)
				if ok := d.valid(v); ok != (o.Err == nil) {
					c.Violate("a value of %s: valid is %v, but the result is %s", id, ok, o)
				}
			}
		}
	})
}

// exactJSON reads JSON without rounding numbers.
func exactJSON(c *C, text string) any {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		c.Violate("not JSON: %v\n%s", err, text)
	}
	return v
}
