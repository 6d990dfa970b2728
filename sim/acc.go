package main

import (
	"fmt"
	"math"
	"strings"
)

// ---- custom accessors: expressions, their text, and what they mean -------------
//
// The expression language is translated into nine languages whose arithmetic differs
// at the edges (overflow, integer division, wrapping casts). Expressions are drawn so
// that they mean the same everywhere on ordinary operands, and the model below says
// for which operands that is the case; the others are not asked about.

type Ex struct {
	Op   string // value, const, cast, ?, un, or the operator
	T    Kind   // type of the result
	A    []*Ex
	C    float64 // constant
	Text string  // its source text
}

// Acc is a custom accessor of a field.
type Acc struct {
	Name     string
	T        Kind
	Get, Set *Ex
}

// accRef is one accessor as seen from a struct.
type accRef struct {
	F *Field
	I int // index of the field among the struct's values
	A *Acc
}

// accs lists the accessors of a struct, embedded ones included.
func (u *Universe) accs(s *Struct) []accRef {
	var out []accRef
	for i, f := range u.normals(s) {
		for k := range f.Accs {
			out = append(out, accRef{F: f, I: i, A: f.Accs[k]})
		}
	}
	return out
}

// setOnly tells whether a universe has an accessor that can only be set.
func (u *Universe) setOnly() bool {
	for _, s := range append(append([]*Struct{}, u.Structs...), u.Inlines...) {
		for _, f := range s.Fields {
			for _, a := range f.Accs {
				if a.Get == nil {
					return true
				}
			}
		}
	}
	return false
}

// genAccs gives fields of a universe accessors.
func genAccs(u *Universe, r *RNG) {
	both := r.P(50) // nothing in it can only be set
	for _, s := range append(append([]*Struct{}, u.Structs...), u.Inlines...) {
		for i := range s.Fields {
			f := &s.Fields[i]
			if f.FK != FNormal || f.Len > 0 || !accKind(f.K) || f.Name == "" || !r.P(70) {
				continue
			}
			for k, n := 0, r.Range(1, 3); k < n; k++ {
				a := &Acc{Name: fmt.Sprintf("%s_%c", f.Name, 'a'+k)}
				a.T = []Kind{KI32, KI32, KF64, KF64, KBool, KBool, KU8, KI16, KI8, KU16, KF32, f.K}[r.N(12)]
				if both || r.P(80) {
					a.Get = genTyped(r, a.T, f.K)
				}
				if a.Get == nil || r.P(55) {
					a.Set = genTyped(r, f.K, a.T)
				}
				f.Accs = append(f.Accs, a)
			}
		}
	}
}

func accKind(k Kind) bool { return k <= KF64 && k != KU64 && k != KI64 }

// genTyped draws an expression of exactly type t over a value of type v.
func genTyped(r *RNG, t, v Kind) *Ex {
	d := r.Range(1, 4)
	switch {
	case t == KBool || t == KI32 || t == KF64:
		return genEx(r, t, v, d)
	case t == KF32:
		return &Ex{Op: "cast", T: t, A: []*Ex{genEx(r, KF64, v, d)}}
	}
	return &Ex{Op: "cast", T: t, A: []*Ex{genEx(r, KI32, v, d)}}
}

func constEx(r *RNG, t Kind) *Ex {
	if t == KI32 {
		c := []int{0, 1, 2, 3, 5, 7, 10, 40, 100, 255, 1000, -1, -2, -7, -40, -100}[r.N(16)]
		tx := fmt.Sprint(c)
		if c >= 0 && r.P(20) {
			tx = fmt.Sprintf("0x%X", c)
		}
		return &Ex{Op: "const", T: t, C: float64(c), Text: tx}
	}
	c := []float64{0.5, 1, 2, 2.5, 10, 40, 100, 0.1, 0.001, 1e-7, 1234.5678, 1e6, -1, -2.5, -0.25, 32768, 9.8}[r.N(17)]
	tx := fmt.Sprint(c)
	if !strings.ContainsAny(tx, ".e") {
		tx += ".0"
	}
	if c > 0 && c < 1 && r.P(20) && strings.HasPrefix(tx, "0.") {
		tx = tx[1:]
	}
	return &Ex{Op: "const", T: t, C: c, Text: tx}
}

// genEx draws an expression of type t (bool, int32, float64) that depends on the value.
func genEx(r *RNG, t, v Kind, d int) *Ex {
	val := func(want Kind) *Ex {
		x := &Ex{Op: "value", T: v}
		if v != want {
			x = &Ex{Op: "cast", T: want, A: []*Ex{x}}
		}
		return x
	}
	cond := func() *Ex { return genEx(r, KBool, v, d-1) }
	other := func(t Kind) *Ex { // a second operand
		if r.P(60) || d <= 1 {
			return constEx(r, t)
		}
		return genEx(r, t, v, d-1)
	}
	cast := func(x *Ex) *Ex {
		if x.Op == "cast" && x.T == t {
			return x
		}
		return &Ex{Op: "cast", T: t, A: []*Ex{x}}
	}
	if t == KBool {
		if v == KBool && (d <= 1 || r.P(30)) {
			return val(KBool)
		}
		if v != KBool && (d <= 1 || r.P(30)) {
			ops := []string{"<", "<=", ">", ">=", "==", "!="}
			x := &Ex{Op: "value", T: v}
			var c *Ex
			if v.Float() {
				c = constEx(r, KF64)
			} else {
				n := r.N(101)
				if v.Signed() && r.P(40) {
					n = -n
				}
				c = &Ex{Op: "const", T: KI32, C: float64(n), Text: fmt.Sprint(n)}
			}
			return &Ex{Op: ops[r.N(6)], T: t, A: []*Ex{x, c}}
		}
		switch r.N(6) {
		case 0:
			return &Ex{Op: "un!", T: t, A: []*Ex{genEx(r, t, v, d-1)}}
		case 1:
			return &Ex{Op: "&&", T: t, A: []*Ex{genEx(r, t, v, d-1), genEx(r, t, v, d-1)}}
		case 2:
			return &Ex{Op: "||", T: t, A: []*Ex{genEx(r, t, v, d-1), genEx(r, t, v, d-1)}}
		case 3:
			return &Ex{Op: []string{"==", "!="}[r.N(2)], T: t, A: []*Ex{genEx(r, t, v, d-1), genEx(r, t, v, d-1)}}
		default:
			k := []Kind{KI32, KF64}[r.N(2)]
			return &Ex{Op: []string{"<", "<=", ">", ">=", "==", "!="}[r.N(6)], T: t, A: []*Ex{genEx(r, k, v, d-1), other(k)}}
		}
	}
	if v == KBool { // numbers come from a bool by choice only
		x := &Ex{Op: "?", T: t, A: []*Ex{genEx(r, KBool, v, min(d-1, 2)), cast(constEx(r, t)), cast(constEx(r, t))}}
		if d <= 1 {
			return x
		}
		return &Ex{Op: []string{"+", "-", "*"}[r.N(3)], T: t, A: []*Ex{x, constEx(r, t)}}
	}
	if d <= 0 || d == 1 && r.P(50) {
		return val(t)
	}
	if r.P(12) {
		return &Ex{Op: "?", T: t, A: []*Ex{cond(), cast(genEx(r, t, v, d-1)), cast(other(t))}}
	}
	if r.P(12) {
		return &Ex{Op: "un-", T: t, A: []*Ex{genEx(r, t, v, d-1)}}
	}
	if t == KF64 {
		switch r.N(9) {
		case 0:
			return &Ex{Op: "**", T: t, A: []*Ex{genEx(r, t, v, d-1), {Op: "const", T: t, C: 2, Text: "2.0"}}}
		case 1, 2:
			for {
				if c := constEx(r, t); c.C != 0 {
					return &Ex{Op: "/", T: t, A: []*Ex{genEx(r, t, v, d-1), c}}
				}
			}
		case 3:
			return &Ex{Op: "cast", T: t, A: []*Ex{genEx(r, KI32, v, d-1)}}
		}
		return &Ex{Op: []string{"+", "-", "*"}[r.N(3)], T: t, A: []*Ex{genEx(r, t, v, d-1), other(t)}}
	}
	small := func(lo, hi int) *Ex {
		n := r.Range(lo, hi)
		return &Ex{Op: "const", T: KI32, C: float64(n), Text: fmt.Sprint(n)}
	}
	switch r.N(12) {
	case 0:
		return &Ex{Op: "%", T: t, A: []*Ex{genEx(r, t, v, d-1), small(1, 50)}}
	case 1:
		return &Ex{Op: "<<", T: t, A: []*Ex{genEx(r, t, v, d-1), small(0, 5)}}
	case 2:
		return &Ex{Op: ">>", T: t, A: []*Ex{genEx(r, t, v, d-1), small(0, 5)}}
	case 3:
		return &Ex{Op: "un~", T: t, A: []*Ex{genEx(r, t, v, d-1)}}
	case 4:
		if v.Float() {
			break
		}
		return &Ex{Op: "cast", T: t, A: []*Ex{genEx(r, KF64, v, d-1)}}
	case 5, 6:
		return &Ex{Op: []string{"&", "|", "^"}[r.N(3)], T: t, A: []*Ex{genEx(r, t, v, d-1), other(t)}}
	}
	return &Ex{Op: []string{"+", "-", "*"}[r.N(3)], T: t, A: []*Ex{genEx(r, t, v, d-1), other(t)}}
}

var exPrec = map[string]int{"**": 14, "un": 13, "cast": 12, "*": 11, "/": 11, "%": 11, "+": 10, "-": 10, "<<": 9, ">>": 9,
	"<": 8, "<=": 8, ">": 8, ">=": 8, "==": 7, "!=": 7, "&": 6, "^": 5, "|": 4, "&&": 3, "||": 2, "?": 1}

func (x *Ex) prec() int {
	switch {
	case x.Op == "value" || x.Op == "const":
		return 20
	case strings.HasPrefix(x.Op, "un"):
		return 13
	}
	return exPrec[x.Op]
}

// text writes the expression with as few parentheses as the grammar allows (extra
// ones now and then).
func (x *Ex) text(r *RNG) string {
	paren := func(a *Ex, need bool) string {
		s := a.text(r)
		if need || a.Op != "value" && r.P(15) {
			return "(" + s + ")"
		}
		return s
	}
	switch {
	case x.Op == "value":
		return "value"
	case x.Op == "const":
		return x.Text
	case x.Op == "cast":
		a := x.A[0]
		return "(" + kindName[x.T] + ")" + paren(a, a.prec() < 20 && a.Op != "cast")
	case strings.HasPrefix(x.Op, "un"):
		a := x.A[0]
		sp := ""
		if r.P(20) {
			sp = " "
		}
		return x.Op[2:] + sp + paren(a, a.prec() < 20)
	case x.Op == "?":
		return paren(x.A[0], x.A[0].prec() <= 1) + " ? " + paren(x.A[1], x.A[1].prec() <= 1) + " : " + paren(x.A[2], x.A[2].prec() <= 1)
	}
	p := x.prec()
	l, rr := x.A[0], x.A[1]
	cmp := p == 8 || p == 7
	return paren(l, l.prec() < p || cmp && l.prec() == p || p == 14) + " " + x.Op + " " + paren(rr, rr.prec() <= p)
}

type exv struct {
	I int64
	F float64
	B bool
}

const accLimit = 1 << 30

// eval gives the expression's value for v and whether every target agrees on it.
func (x *Ex) eval(v exv) (exv, bool) {
	var a []exv
	for i, e := range x.A {
		if x.Op == "?" && i > 0 {
			break
		}
		w, ok := e.eval(v)
		if !ok {
			return w, false
		}
		a = append(a, w)
	}
	num := func(i int64) (exv, bool) { return exv{I: i}, i > -accLimit && i < accLimit }
	flt := func(f float64) (exv, bool) { return exv{F: f}, math.Abs(f) < 1e12 }
	yes := func(b bool) (exv, bool) { return exv{B: b}, true }
	switch x.Op {
	case "value":
		return v, true
	case "const":
		if x.T == KI32 {
			return exv{I: int64(x.C)}, true
		}
		return exv{F: x.C}, true
	case "cast":
		from := x.A[0].T
		switch {
		case from == x.T:
			return a[0], true
		case from == KBool || x.T == KBool:
			panic("cast of bool")
		case x.T.Float() && from.Float():
			if x.T == KF32 {
				return a[0], float64(float32(a[0].F)) == a[0].F
			}
			return flt(a[0].F)
		case x.T.Float():
			return flt(float64(a[0].I))
		case from.Float():
			if a[0].F != math.Trunc(a[0].F) || math.Abs(a[0].F) >= accLimit {
				return exv{}, false
			}
			return narrow(x.T, int64(a[0].F))
		}
		return narrow(x.T, a[0].I)
	case "?":
		k := 2
		if a[0].B {
			k = 1
		}
		// Go and the others evaluate one side only
		return x.A[k].eval(v)
	case "un-":
		if x.T == KF64 {
			return flt(-a[0].F)
		}
		return num(-a[0].I)
	case "un~":
		return num(^a[0].I)
	case "un!":
		return yes(!a[0].B)
	case "&&":
		return yes(a[0].B && a[1].B)
	case "||":
		return yes(a[0].B || a[1].B)
	}
	if x.T == KBool {
		l, r := x.A[0].T, x.A[1].T
		c := 0
		switch {
		case l == KBool:
			if a[0].B != a[1].B {
				c = 1
			}
		case l.Float():
			if !r.Float() {
				panic("mixed comparison")
			}
			if a[0].F < a[1].F {
				c = -1
			} else if a[0].F > a[1].F {
				c = 1
			}
			// float32 against a double constant: equal only where both are exact
			if l == KF32 && a[1].F != float64(float32(a[1].F)) {
				return exv{}, false
			}
		default:
			if a[0].I < a[1].I {
				c = -1
			} else if a[0].I > a[1].I {
				c = 1
			}
		}
		switch x.Op {
		case "<":
			return yes(c < 0)
		case "<=":
			return yes(c <= 0)
		case ">":
			return yes(c > 0)
		case ">=":
			return yes(c >= 0)
		case "==":
			return yes(c == 0)
		}
		return yes(c != 0)
	}
	if x.T == KF64 {
		l, r := a[0].F, a[1].F
		switch x.Op {
		case "+":
			return flt(l + r)
		case "-":
			return flt(l - r)
		case "*":
			return flt(l * r)
		case "/":
			return flt(l / r)
		case "**":
			return exv{F: l * l}, l*4 == math.Trunc(l*4) && math.Abs(l) <= 1000
		}
	}
	l, r := a[0].I, a[1].I
	switch x.Op {
	case "+":
		return num(l + r)
	case "-":
		return num(l - r)
	case "*":
		return num(l * r)
	case "%":
		if l < 0 {
			return exv{}, false
		}
		return num(l % r)
	case "<<":
		if l < 0 {
			return exv{}, false
		}
		return num(l << uint(r))
	case ">>":
		if l < 0 {
			return exv{}, false
		}
		return num(l >> uint(r))
	case "&":
		return num(l & r)
	case "|":
		return num(l | r)
	case "^":
		return num(l ^ r)
	}
	panic("unknown operator " + x.Op)
}

// narrow converts to an integer type; only values it holds in every target (Java has
// no unsigned types) are agreed on.
func narrow(t Kind, i int64) (exv, bool) {
	n := kindBits[t]
	lo, hi := -(int64(1) << (n - 1)), int64(1)<<(n-1)-1
	if !t.Signed() {
		lo = 0
	}
	return exv{I: i}, i >= lo && i <= hi
}

// ofVal reads a field's value.
func ofVal(k Kind, v *Val) (exv, bool) {
	switch {
	case k == KBool:
		return exv{B: v.I != 0}, true
	case k == KF32:
		f := float64(math.Float32frombits(uint32(v.I)))
		return exv{F: f}, math.Abs(f) < 1e9 && f == f
	case k == KF64:
		f := math.Float64frombits(v.I)
		return exv{F: f}, math.Abs(f) < 1e9 && f == f
	case k.Signed():
		sh := uint(64 - kindBits[k])
		return narrow(k, int64(v.I<<sh)>>sh)
	}
	if v.I > math.MaxInt32 {
		return exv{}, false
	}
	return narrow(k, int64(v.I))
}

// toVal makes a field's value; the value must fit the width of the field.
func toVal(f *Field, k Kind, e exv) (*Val, bool) {
	switch {
	case k == KBool:
		if e.B {
			return &Val{I: 1}, true
		}
		return &Val{}, true
	case k == KF32:
		return &Val{I: uint64(math.Float32bits(float32(e.F)))}, true
	case k == KF64:
		return &Val{I: math.Float64bits(e.F)}, true
	}
	if f != nil && f.Bits < kindBits[k] {
		if k.Signed() {
			if e.I < -(int64(1)<<(f.Bits-1)) || e.I > int64(1)<<(f.Bits-1)-1 {
				return nil, false
			}
		} else if uint64(e.I) > maskN(f.Bits) {
			return nil, false
		}
	}
	return &Val{I: uint64(e.I)}, true
}

// accVal draws an operand that most expressions are defined for.
func accVal(r *RNG, k Kind, bits int) *Val {
	switch k {
	case KBool:
		return &Val{I: uint64(r.N(2))}
	case KF32, KF64:
		f := float64(r.Range(-400, 400)) / []float64{1, 4}[r.N(2)]
		if k == KF32 {
			return &Val{I: uint64(math.Float32bits(float32(f)))}
		}
		if r.P(20) {
			f = float64(r.Range(-100000, 100000)) / 1000
		}
		return &Val{I: math.Float64bits(f)}
	}
	n := int64(r.N([]int{4, 12, 128, 1000, 100000}[r.N(5)]))
	if k.Signed() {
		n = min(n, int64(1)<<(bits-1)-1)
		if r.P(35) {
			n = -n
		}
		return &Val{I: uint64(n)}
	}
	return &Val{I: uint64(n) & maskN(bits)}
}

func scalarToken(k Kind, v *Val) string {
	u := &Universe{}
	return strings.Join(u.tokens(&Struct{Fields: []Field{{Name: "x", K: k}}}, &Val{L: []*Val{v}}, nil), " ")
}
