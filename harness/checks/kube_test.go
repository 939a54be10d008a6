package checks

// Cached schemas of manifests: generator and reference semantics.

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/totegamma/yisp/core"
)

type kind struct{ av, kind, id string }

// kube is a cache of schemas.
type kube struct {
	dir   string
	defs  map[string]*Sch
	ids   []string
	kinds []kind
	urls  map[string]*Sch
	fetch func(url string) *Sch // nil: only what urls has
	allow bool                  // untyped manifests are allowed
	n     int                   // manifests seen
	bad   int                   // ill-typed ones in the output
}

func newKube(c *C) *kube {
	k := &kube{defs: map[string]*Sch{}, urls: map[string]*Sch{}}
	d := c.Dir()
	if c.Chance(20, "home-cache") {
		old, oldDir := os.Getenv("HOME"), core.CacheDir
		core.CacheDir = ""
		os.Setenv("HOME", d)
		k.dir = filepath.Join(d, ".cache", "yisp")
		c.T.Cleanup(func() { os.Setenv("HOME", old); core.CacheDir = oldDir })
	} else {
		old := core.CacheDir
		core.CacheDir = d
		k.dir = d
		c.T.Cleanup(func() { core.CacheDir = old })
	}
	return k
}

// def adds a definition; its fields may be filled in later.
func (k *kube) def(id string, s *Sch) *Sch {
	k.defs[id] = s
	k.ids = append(k.ids, id)
	return s
}

func (k *kube) ref(id string) *Sch {
	return &Sch{Ref: "#/definitions/" + id, RefTo: k.defs[id]}
}

func (k *kube) gvk(av, kd, id string) { k.kinds = append(k.kinds, kind{av, kd, id}) }

// write stores the cache the way cache-kube-schemas lays it out.
func (k *kube) write(c *C) {
	put := func(name, text string) {
		f := filepath.Join(k.dir, name)
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			c.Harness("%v", err)
		}
		if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
			c.Harness("%v", err)
		}
	}
	for _, id := range k.ids {
		t := k.defs[id].value().jsonText()
		c.Note("--- schema %s ---\n%s", id, t)
		put("schemas/"+id+".json", t)
	}
	for _, x := range k.kinds {
		if x.id == "" {
			continue
		}
		g, v, ok := strings.Cut(x.av, "/")
		if !ok {
			g, v = "", x.av
		}
		put(fmt.Sprintf("gvk/%s_%s_%s.txt", g, v, x.kind), x.id)
		c.Note("--- %s %s is %s ---", x.av, x.kind, x.id)
	}
	for u, s := range k.urls {
		put("schemas/"+base64.StdEncoding.EncodeToString([]byte(u))+".json", s.value().jsonText())
		c.Note("--- %s ---\n%s", u, s.value().jsonText())
	}
}

func (k *kube) find(av, kd string) *Sch {
	for _, x := range k.kinds {
		if x.av == av && x.kind == kd {
			return k.defs[x.id]
		}
	}
	return nil
}

// typed gives a map written in a program the type it declares.
func (k *kube) typed(n *N, v *V) *evalErr {
	lit := func(key string) string {
		s := ""
		for _, e := range n.Ents {
			if !e.Merge && e.Key == key {
				s = ""
				if x := v.M.m[key]; x.K == VStr {
					s = x.S
				}
			}
		}
		return s
	}
	var s *Sch
	av, kd, url := lit("apiVersion"), lit("kind"), lit("$schema")
	switch {
	case url != "":
		s = k.urls[url]
		if k.fetch != nil {
			s = k.fetch(url)
		}
	case av != "" && kd != "":
		s = k.find(av, kd)
	default:
		return nil
	}
	k.n++
	if s == nil {
		if k.allow {
			return nil
		}
		return fail(n, "no schema for %s %s %s", av, kd, url)
	}
	v.Typ = s
	return nil
}

// verify counts the ill-typed values of the output.
func (k *kube) verify(docs []*V) int {
	bad := 0
	var walk func(v *V)
	walk = func(v *V) {
		if v.Typ != nil && !v.Typ.valid(v) {
			bad++
		}
		switch v.K {
		case VList:
			for _, x := range v.L {
				walk(x)
			}
		case VMap:
			for _, key := range v.M.keys {
				walk(v.M.m[key])
			}
		}
	}
	for _, d := range docs {
		walk(d)
	}
	return bad
}

// manID is what tells manifests apart for k8s.patch.
func manID(v *V) [4]string {
	var id [4]string
	str := func(v *V, k string) string {
		if v == nil || v.K != VMap {
			return ""
		}
		if x, ok := v.M.Get(k); ok && x.K == VStr {
			return x.S
		}
		return ""
	}
	id[0], id[1] = str(v, "apiVersion"), str(v, "kind")
	if md, ok := v.M.Get("metadata"); ok {
		id[2], id[3] = str(md, "namespace"), str(md, "name")
	}
	return id
}

func init() {
	pure("k8s.patch", func(a []*V) (*V, int, string) {
		if len(a) != 2 || a[0].K != VList || a[1].K != VList {
			return nil, -1, "needs two lists"
		}
		r := *a[0]
		r.L = append([]*V{}, a[0].L...)
		for _, p := range a[1].L {
			for i, t := range r.L {
				if p.K != VMap || t.K != VMap {
					return nil, -1, "not a manifest"
				}
				if manID(p) != manID(t) {
					continue
				}
				v, ok := mergeRef(t, p, t.Typ.deref())
				if !ok {
					return nil, -1, "lists can not be merged"
				}
				if v.Typ == nil {
					c := *v
					c.Typ = t.Typ
					v = &c
				}
				r.L[i] = v
			}
		}
		return &r, 0, ""
	})
}
