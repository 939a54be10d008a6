package checks

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"
)

// nearInt draws integers around the places where floats and integers part ways.
func nearNum(c *C, label string) *V {
	base := pick(c, label+"-base", int64(0), 1<<53, -(1 << 53), math.MaxInt64, math.MinInt64, 1<<62, 1<<31, 1<<32, 1000000, 1<<54, 1<<60)
	d := int64(c.Int(-3, 3, label+"-d"))
	i := base + d // may wrap, that is fine
	switch c.Int(0, 2, label+"-as") {
	case 0:
		return vFloat(float64(i))
	case 1:
		return vFloat(float64(i) + pick(c, label+"-frac", 0.5, -0.5, 0.25))
	}
	return vInt(i)
}

func genNum(c *C, label string) *V {
	switch c.Int(0, 4, label+"-numkind") {
	case 0:
		return vFloat(genFloat(c, label))
	case 1, 2:
		return nearNum(c, label)
	}
	return vInt(genInt(c, label))
}

func TestC06(t *testing.T) {
	arith := []string{"+", "-", "*", "/", "add", "sub", "mul", "div"}
	sub(t, "arith", 1, "one of + - * / (or their names) over 0..8 integers (small, boundary, random 64-bit; sometimes a wrong type), as literals, variables and expressions, against 64-bit arithmetic; non-trivial: at least two operands", func(c *C) {
		op := pick(c, "op", arith...)
		n := genLen(c, "n")
		var args []*V
		for i := 0; i < n; i++ {
			args = append(args, vInt(genInt(c, "i")))
		}
		if len(args) > 0 {
			args = wrongly(c, 8, args)
		}
		c.NonTrivialIf(len(args) >= 2)
		runOp(c, op, args)
	})
	sub(t, "exact", 0.4, "sums and products whose exact value is computed with big integers and fits 64 bits; non-trivial: the exact value needs more than 53 bits", func(c *C) {
		op := pick(c, "op", "+", "-", "*")
		n := c.Int(2, 6, "n")
		acc := new(big.Int)
		var items []*N
		for i := 0; i < n; i++ {
			x := genInt(c, "i")
			b := big.NewInt(x)
			var nx big.Int
			switch {
			case i == 0:
				nx.Set(b)
			case op == "+":
				nx.Add(acc, b)
			case op == "-":
				nx.Sub(acc, b)
			default:
				nx.Mul(acc, b)
			}
			if !nx.IsInt64() {
				continue
			}
			acc.Set(&nx)
			items = append(items, nInt(x))
		}
		src := printDocs([]*N{nList(nYisp(nCall(op, items...)))}, c.Seed("layout"), false)
		o := c.Eval(src)
		c.NonTrivialIf(acc.BitLen() > 53)
		c.Expect(o, []*V{vList(vInt(acc.Int64()))}, nil, true)
	})
	sub(t, "order", 0.8, "comparisons of two numbers (integers and floats, adjacent around 2^53 and 2^63, equal across types, infinities) in both directions with both spellings, against exact rational comparison; non-trivial: operands differ in type or by less than 4", func(c *C) {
		a := genNum(c, "a")
		b := genNum(c, "b")
		if c.Bool("close") {
			b = closeTo(c, a)
		}
		args := wrongly(c, 6, []*V{a, b})
		if len(args) == 2 {
			c.NonTrivialIf(a.K != b.K || math.Abs(asFloat(a)-asFloat(b)) < 4)
		}
		runOp(c, pick(c, "op", "<", "<=", ">", ">=", "lt", "lte", "gt", "gte"), args)
	})
	sub(t, "nested", 0.5, "trees of arithmetic and comparison expressions, up to depth 4, against the reference interpreter; non-trivial: at least three operators", func(c *C) {
		cnt := 0
		var gen func(d int) *N
		gen = func(d int) *N {
			if d == 0 || c.Chance(30, "leaf") {
				return nInt(genInt(c, "leaf-int"))
			}
			cnt++
			n := c.Int(1, 3, "arity")
			call := nCall(pick(c, "op", arith...))
			for i := 0; i < n; i++ {
				call.Items = append(call.Items, gen(d-1))
			}
			return call
		}
		e := gen(4)
		if c.Bool("cmp") {
			e = nCall(pick(c, "cmp", "<", "<=", ">", ">="), e, gen(3))
		}
		if e.K != NList {
			e = nCall("+", e)
		}
		c.NonTrivialIf(cnt >= 3)
		c.RunProg([]*N{wrapCall(c, e)})
	})
}

// closeTo draws a number equal to a, or next to it, maybe of the other type.
func closeTo(c *C, a *V) *V {
	switch c.Int(0, 4, "closeness") {
	case 0:
		return a
	case 1:
		if a.K == VInt {
			return vFloat(float64(a.I))
		}
		if a.F >= -9e18 && a.F <= 9e18 {
			return vInt(int64(a.F))
		}
		return a
	case 2:
		if a.K == VInt {
			return vInt(a.I + int64(c.Int(-2, 2, "delta")))
		}
		return vFloat(math.Nextafter(a.F, math.Inf(pick(c, "dir", 1, -1))))
	case 3:
		if a.K == VInt {
			return vFloat(math.Nextafter(float64(a.I), math.Inf(pick(c, "dir", 1, -1))))
		}
		if a.F >= -9e18 && a.F <= 9e18 {
			return vInt(int64(a.F) + int64(c.Int(-2, 2, "delta")))
		}
	}
	return vFloat(-asFloat(a))
}

// related draws a value that is equal to v or differs from it in one small place.
func related(c *C, v *V) *V {
	switch c.Int(0, 5, "relation") {
	case 0:
		return v.clone()
	case 1:
		return genVal(c, 2, "other")
	case 2:
		return reorder(c, v)
	}
	w := v.clone()
	mutateOne(c, w)
	return w
}

func reorder(c *C, v *V) *V {
	switch v.K {
	case VList:
		r := &V{K: VList}
		for _, x := range v.L {
			r.L = append(r.L, reorder(c, x))
		}
		if len(r.L) > 1 && c.Chance(15, "swap-items") {
			r.L[0], r.L[1] = r.L[1], r.L[0]
		}
		return r
	case VMap:
		m := newOMap()
		ks := append([]string{}, v.M.keys...)
		if len(ks) > 1 && c.Chance(70, "rotate") {
			ks = append(ks[1:], ks[0])
		}
		for _, k := range ks {
			m.Set(k, reorder(c, v.M.m[k]))
		}
		return vMap(m)
	}
	return v
}

// mutateOne changes one place of w (in place).
func mutateOne(c *C, w *V) {
	var places []*V
	var walk func(v *V)
	walk = func(v *V) {
		places = append(places, v)
		for _, x := range v.L {
			walk(x)
		}
		if v.K == VMap {
			for _, k := range v.M.keys {
				walk(v.M.m[k])
			}
		}
	}
	walk(w)
	p := places[c.Int(0, len(places)-1, "place")]
	switch p.K {
	case VInt:
		*p = *pick(c, "int-mut", vFloat(float64(p.I)), vStr(fmt.Sprint(p.I)), vInt(p.I+1), vInt(-p.I))
	case VFloat:
		*p = *pick(c, "float-mut", vFloat(math.Nextafter(p.F, 0)), vStr(fmt.Sprint(p.F)), vFloat(-p.F))
	case VStr:
		*p = *pick(c, "str-mut", vStr(p.S+" "), vStr(strings.ToUpper(p.S)), vStr(""), vList(vStr(p.S)), vNull())
	case VBool:
		*p = *pick(c, "bool-mut", vBool(!p.B), vStr(fmt.Sprint(p.B)), vInt(1))
	case VNull:
		*p = *pick(c, "null-mut", vStr("null"), vBool(false), vInt(0), vList(), vStr(""))
	case VList:
		switch {
		case len(p.L) > 0 && c.Bool("drop-item"):
			i := c.Int(0, len(p.L)-1, "item")
			p.L = append(append([]*V{}, p.L[:i]...), p.L[i+1:]...)
		case c.Bool("to-other"):
			*p = *pick(c, "list-mut", vMapOf(), vNull(), vStr("[]"))
		default:
			p.L = append(append([]*V{}, p.L...), vNull())
		}
	case VMap:
		switch {
		case p.M.Len() > 0 && c.Bool("drop-key"):
			k := p.M.keys[c.Int(0, p.M.Len()-1, "key")]
			p.M.Del(k)
			if c.Bool("rename") {
				p.M.Set(k+"_", vInt(1))
			}
		default:
			p.M.Set("extra", vNull())
		}
	}
}
