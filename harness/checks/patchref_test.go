package checks

// Reference implementation of JSON Patch (RFC 6902) with wildcards.

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
)

var errPatch = errors.New("patch fails")

func tokens(p string) ([]string, error) {
	if p == "" {
		return nil, nil
	}
	if p[0] != '/' {
		return nil, fmt.Errorf("%w: not a pointer: %q", errPatch, p)
	}
	t := strings.Split(p[1:], "/")
	for i := range t {
		t[i] = strings.ReplaceAll(strings.ReplaceAll(t[i], "~1", "/"), "~0", "~")
	}
	return t, nil
}

func index(t string, n int) (int, error) {
	i, err := strconv.Atoi(t)
	if err != nil || strconv.Itoa(i) != t || i < 0 || i > n {
		return 0, fmt.Errorf("%w: index %q of %d", errPatch, t, n)
	}
	return i, nil
}

func child(v *V, t string) (*V, error) {
	switch v.K {
	case VMap:
		if x, ok := v.M.Get(t); ok {
			return x, nil
		}
	case VList:
		if i, err := index(t, len(v.L)-1); err == nil {
			return v.L[i], nil
		}
	}
	return nil, fmt.Errorf("%w: no %q", errPatch, t)
}

func getAt(v *V, toks []string) (*V, error) {
	for _, t := range toks {
		var err error
		if v, err = child(v, t); err != nil {
			return nil, err
		}
	}
	return v, nil
}

// change applies f to the parent of each place the path denotes, returning a new value.
func change(v *V, toks []string, wild bool, f func(parent *V, tok string) (*V, error)) (*V, error) {
	if len(toks) == 0 {
		return nil, fmt.Errorf("%w: the root", errPatch)
	}
	t := toks[0]
	if wild && t == "*" {
		if v.K != VMap && v.K != VList {
			return nil, fmt.Errorf("%w: * of %s", errPatch, v.K)
		}
		return eachEntry(v, toks, f)
	}
	if len(toks) == 1 {
		return f(v, t)
	}
	c, err := child(v, t)
	if err != nil {
		return nil, err
	}
	n, err := change(c, toks[1:], wild, f)
	if err != nil {
		return nil, err
	}
	return setChild(v, t, n), nil
}

func setChild(v *V, t string, n *V) *V {
	r := *v
	if v.K == VMap {
		r.M = newOMap()
		for _, k := range v.M.keys {
			r.M.Set(k, v.M.m[k])
		}
		r.M.Set(t, n)
		return &r
	}
	i, _ := strconv.Atoi(t)
	r.L = append([]*V{}, v.L...)
	r.L[i] = n
	return &r
}

func eachEntry(v *V, toks []string, f func(parent *V, tok string) (*V, error)) (*V, error) {
	var keys []string
	if v.K == VMap {
		keys = append(keys, v.M.keys...)
	} else {
		for i := range v.L {
			keys = append(keys, strconv.Itoa(i))
		}
	}
	if len(toks) == 1 {
		// from the last to the first, so that removals do not shift what is left
		for i := len(keys) - 1; i >= 0; i-- {
			var err error
			if v, err = f(v, keys[i]); err != nil {
				return nil, err
			}
		}
		return v, nil
	}
	for _, k := range keys {
		c, _ := child(v, k)
		n, err := change(c, toks[1:], true, f)
		if err != nil {
			return nil, err
		}
		v = setChild(v, k, n)
	}
	return v, nil
}

func hasWild(toks []string) bool {
	for _, t := range toks {
		if t == "*" {
			return true
		}
	}
	return false
}

func opAddRef(doc *V, toks []string, val *V) (*V, error) {
	if hasWild(toks) {
		lastStar := toks[len(toks)-1] == "*"
		return change(doc, toks, true, func(p *V, t string) (*V, error) {
			// a wildcard add merges maps into existing maps
			if c, err := child(p, t); err == nil {
				if c.K == VMap && val.K == VMap {
					n := c
					for _, k := range val.M.keys {
						n = setChild(n, k, val.M.m[k])
					}
					return setChild(p, t, n), nil
				}
				if lastStar {
					return setChild(p, t, val), nil
				}
			}
			return addOne(p, t, val)
		})
	}
	return change(doc, toks, false, func(p *V, t string) (*V, error) { return addOne(p, t, val) })
}

func addOne(p *V, t string, val *V) (*V, error) {
	switch p.K {
	case VMap:
		return setChild(p, t, val), nil
	case VList:
		i := len(p.L)
		if t != "-" {
			var err error
			if i, err = index(t, len(p.L)); err != nil {
				return nil, err
			}
		}
		r := *p
		r.L = append(append(append([]*V{}, p.L[:i]...), val), p.L[i:]...)
		return &r, nil
	}
	return nil, fmt.Errorf("%w: add to %s", errPatch, p.K)
}

func removeOne(p *V, t string) (*V, error) {
	if _, err := child(p, t); err != nil {
		return nil, err
	}
	r := *p
	if p.K == VMap {
		r.M = newOMap()
		for _, k := range p.M.keys {
			if k != t {
				r.M.Set(k, p.M.m[k])
			}
		}
		return &r, nil
	}
	i, _ := strconv.Atoi(t)
	r.L = append(append([]*V{}, p.L[:i]...), p.L[i+1:]...)
	return &r, nil
}

func patchOnce(doc *V, op *V) (*V, error) {
	if op.K != VMap {
		return nil, fmt.Errorf("%w: not a map", errPatch)
	}
	str := func(k string) (string, error) {
		v, ok := op.M.Get(k)
		if !ok || v.K != VStr {
			return "", fmt.Errorf("%w: no %s", errPatch, k)
		}
		return v.S, nil
	}
	name, err := str("op")
	if err != nil {
		return nil, err
	}
	p, err := str("path")
	if err != nil {
		return nil, err
	}
	toks, err := tokens(p)
	if err != nil {
		return nil, err
	}
	val, hasVal := op.M.Get("value")
	if !hasVal && (name == "add" || name == "replace" || name == "test") {
		return nil, fmt.Errorf("%w: no value", errPatch)
	}
	var from []string
	if name == "move" || name == "copy" {
		f, err := str("from")
		if err != nil {
			return nil, err
		}
		if from, err = tokens(f); err != nil {
			return nil, err
		}
		if name == "move" && strings.HasPrefix(p, f+"/") {
			return nil, fmt.Errorf("%w: move into itself", errPatch)
		}
	}
	switch name {
	case "add":
		return opAddRef(doc, toks, val)
	case "remove":
		return change(doc, toks, true, removeOne)
	case "replace":
		return change(doc, toks, true, func(p *V, t string) (*V, error) {
			if _, err := child(p, t); err != nil {
				return nil, err
			}
			return setChild(p, t, val), nil
		})
	case "test":
		x, err := getAt(doc, toks)
		if err != nil {
			return nil, err
		}
		if !dataEqual(x, val) {
			return nil, fmt.Errorf("%w: test", errPatch)
		}
		return doc, nil
	case "move", "copy":
		x, err := getAt(doc, from)
		if err != nil {
			return nil, err
		}
		if name == "move" {
			if doc, err = change(doc, from, false, removeOne); err != nil {
				return nil, err
			}
		}
		return opAddRef(doc, toks, x)
	}
	return nil, fmt.Errorf("%w: unknown operation %q", errPatch, name)
}

func patchDoc(doc *V, ops []*V) (*V, error) {
	for _, op := range ops {
		var err error
		if doc, err = patchOnce(doc, op); err != nil {
			return nil, err
		}
	}
	return doc, nil
}

func patchRef(target, patches *V) (*V, error) {
	var ops []*V
	switch patches.K {
	case VList:
		ops = patches.L
	case VMap:
		ops = []*V{patches}
	default:
		return nil, fmt.Errorf("%w: not patches", errPatch)
	}
	if target.Doc {
		r := *target
		r.L = nil
		for _, d := range target.L {
			n, err := patchDoc(d, ops)
			if err != nil {
				return nil, err
			}
			r.L = append(r.L, n)
		}
		return &r, nil
	}
	return patchDoc(target, ops)
}
