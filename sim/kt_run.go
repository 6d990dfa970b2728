package main

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// ---- Kotlin: meaning ----------------------------------------------------------

type kk uint8

const (
	kUnit kk = iota
	kNull
	kBool
	kByte
	kShort
	kInt
	kLong
	kUByte
	kUShort
	kUInt
	kULong
	kFloat
	kDouble
	kString
	kObj
	kArr
	kRange
	kAny
)

var kkName = []string{"Unit", "null", "Boolean", "Byte", "Short", "Int", "Long", "UByte", "UShort", "UInt", "ULong", "Float", "Double", "String", "object", "array", "range", "Any"}
var kkBits = []int{0, 0, 1, 8, 16, 32, 64, 8, 16, 32, 64}

func (k kk) signed() bool   { return k >= kByte && k <= kLong }
func (k kk) unsigned() bool { return k >= kUByte && k <= kULong }
func (k kk) integer() bool  { return k >= kByte && k <= kULong }
func (k kk) floating() bool { return k == kFloat || k == kDouble }

// kv is a value. Integers are kept sign- or zero-extended in n, floats as bits. lit marks
// literals without a suffix, which take the type their place expects.
type kv struct {
	k   kk
	lit bool
	n   uint64
	o   any
}

// kty is a resolved type.
type kty struct {
	k    kk
	null bool
	cls  *kclass
	elem *kty // of arrays
}

func (t *kty) String() string {
	s := kkName[t.k]
	if t.cls != nil {
		s = t.cls.name
	}
	if t.k == kArr {
		s = "array of " + t.elem.String()
	}
	if t.null {
		s += "?"
	}
	return s
}

type kobj struct {
	cls   *kclass
	f     []kv
	entry string
	ord   int
}

type karr struct {
	elem *kty
	b    []byte // when elem is Byte
	v    []kv
}

func (a *karr) size() int {
	if a.elem.k == kByte {
		return len(a.b)
	}
	return len(a.v)
}

type krange struct{ from, to, step int64 } // to is included

type ktThrow struct{ name, msg string }

func (e ktThrow) Error() string { return e.name + ": " + e.msg }

type ktHang struct{}

type kprop struct {
	name     string
	ty       *kty
	init     kexpr
	get, set *kfun
	mut      bool
	priv     bool
	privSet  bool
	idx      int // -1: no backing field
	cls      *kclass
	src      *ktProp
}

type kparam struct {
	name string
	ty   *kty
	def  kexpr
	prop int
}

type kfun struct {
	name   string
	cls    *kclass
	static bool
	priv   bool
	params []kparam
	ret    *kty
	slots  int
	body   kstmt
	catch  bool
	src    *ktFun
	file   *ktFile
}

type kclass struct {
	name    string
	pkg     string
	file    *ktFile
	src     *ktClass
	kind    string
	fields  int
	props   []*kprop
	propIdx map[string]*kprop
	funs    map[string][]*kfun
	sprops  map[string]*kprop // of the companion (or object)
	sfuns   map[string][]*kfun
	statics []kv
	ctor    []kparam
	ctorFn  *kfun
	entries []*kobj
	outer   *kclass
}

type kpkg struct {
	types map[string]*kclass
	funs  map[string][]*kfun
}

type ktProg struct {
	pkgs map[string]*kpkg
	vm   *kvm
}

type kframe struct {
	vm   *kvm
	s    []kv
	this *kobj
	ret  kv
}

type kvm struct {
	steps, limit int64
	depth        int
	point        func() // where a call may be made to wait, when calls overlap
}

func (vm *kvm) tick() {
	vm.steps++
	if vm.steps > vm.limit {
		panic(ktHang{})
	}
}

type (
	kexpr func(f *kframe) kv
	kctl  uint8
	kstmt func(f *kframe) kctl
)

const (
	cNext kctl = iota
	cBreak
	cContinue
	cReturn
)

type kjump struct{ f *kframe } // return out of an expression

var basicTypes = map[string]kk{"Unit": kUnit, "Boolean": kBool, "Byte": kByte, "Short": kShort, "Int": kInt, "Long": kLong, "UByte": kUByte, "UShort": kUShort, "UInt": kUInt, "ULong": kULong, "Float": kFloat, "Double": kDouble, "String": kString, "Any": kAny}

func rej(format string, a ...any) { panic(ktReject{fmt.Sprintf(format, a...)}) }
func uns(format string, a ...any) { panic(ktUnsup{fmt.Sprintf(format, a...)}) }

// static is what is certain about the type of a property where it is used: a property
// that is not var may be smart cast.
func (q *kprop) static() *kty {
	if q.ty != nil && q.ty.null && !q.mut {
		return nil
	}
	return q.ty
}

// ---- numbers ----

func wrapInt(k kk, n uint64) uint64 {
	switch k {
	case kByte:
		return uint64(int64(int8(n)))
	case kShort:
		return uint64(int64(int16(n)))
	case kInt:
		return uint64(int64(int32(n)))
	case kUByte:
		return n & 0xff
	case kUShort:
		return n & 0xffff
	case kUInt:
		return n & 0xffffffff
	}
	return n
}

func kI(n int64) kv   { return kv{k: kInt, n: uint64(int64(int32(n)))} }
func kB(b bool) kv    { return kv{k: kBool, n: map[bool]uint64{true: 1}[b]} }
func kS(s string) kv  { return kv{k: kString, o: s} }
func kD(x float64) kv { return kv{k: kDouble, n: math.Float64bits(x)} }
func kF(x float32) kv { return kv{k: kFloat, n: uint64(math.Float32bits(x))} }
func kBytes(b []byte) kv {
	return kv{k: kArr, o: &karr{elem: &kty{k: kByte}, b: b}}
}

func (v kv) f() float64 {
	switch {
	case v.k == kFloat:
		return float64(math.Float32frombits(uint32(v.n)))
	case v.k == kDouble:
		return math.Float64frombits(v.n)
	case v.k.signed():
		return float64(int64(v.n))
	}
	return float64(v.n)
}

func (v kv) f32() float32 {
	switch {
	case v.k == kFloat:
		return math.Float32frombits(uint32(v.n))
	case v.k == kDouble:
		return float32(math.Float64frombits(v.n))
	case v.k.signed():
		return float32(int64(v.n))
	}
	return float32(v.n)
}

func mkFloat(k kk, x float64) kv {
	if k == kFloat {
		return kF(float32(x))
	}
	return kD(x)
}

func (v kv) what() string {
	switch v.k {
	case kObj:
		return v.o.(*kobj).cls.name
	case kArr:
		return "array of " + v.o.(*karr).elem.String()
	}
	return kkName[v.k]
}

// adapt gives a literal the type its place expects.
func adapt(v kv, k kk) (kv, bool) {
	if v.k == k {
		v.lit = false
		return v, true
	}
	if !v.lit {
		return v, false
	}
	n := int64(v.n)
	switch {
	case (v.k == kInt || v.k == kLong) && k.signed():
		if int64(wrapInt(k, v.n)) == n {
			return kv{k: k, n: v.n}, true
		}
	case (v.k == kUInt || v.k == kULong) && k.unsigned():
		if wrapInt(k, v.n) == v.n {
			return kv{k: k, n: v.n}, true
		}
	}
	return v, false
}

func convert(v kv, to kk, name string) kv {
	switch {
	case v.k.integer() && (to.signed() || to.unsigned()):
		return kv{k: to, n: wrapInt(to, v.n)}
	case v.k.integer() && to == kFloat:
		return kF(v.f32())
	case v.k.integer() && to == kDouble:
		return kD(v.f())
	case v.k.floating() && to == kFloat:
		return kF(v.f32())
	case v.k.floating() && to == kDouble:
		return kD(v.f())
	case v.k.floating() && to.signed():
		x := v.f()
		var n int64
		lo, hi := float64(math.MinInt64), float64(math.MaxInt64)
		if to != kLong {
			lo, hi = math.MinInt32, math.MaxInt32
		}
		switch {
		case x != x:
		case x <= lo:
			n = math.MinInt64
			if to != kLong {
				n = math.MinInt32
			}
		case x >= hi:
			n = math.MaxInt64
			if to != kLong {
				n = math.MaxInt32
			}
		default:
			n = int64(x)
		}
		return kv{k: to, n: wrapInt(to, uint64(n))}
	case v.k.floating() && (to == kUInt || to == kULong):
		x := v.f()
		var n uint64
		switch {
		case x != x || x <= 0:
		case to == kUInt && x >= math.MaxUint32:
			n = math.MaxUint32
		case to == kULong && x >= math.MaxUint64:
			n = math.MaxUint64
		default:
			n = uint64(x)
		}
		return kv{k: to, n: n}
	}
	rej("%s has no %s", v.what(), name)
	return kv{}
}

func arith(op byte, a, b kv) kv {
	if a.k == kString || b.k == kString && op == '+' {
		if op != '+' {
			rej("String has no %c", op)
		}
		return kS(kstr(a) + kstr(b))
	}
	var k kk
	switch {
	case a.k.signed() && b.k.signed():
		k = kInt
		if a.k == kLong || b.k == kLong {
			k = kLong
		}
	case a.k.unsigned() && b.k.unsigned():
		k = kUInt
		if a.k == kULong || b.k == kULong {
			k = kULong
		}
	case (a.k.signed() || a.k.floating()) && (b.k.signed() || b.k.floating()):
		if a.k == kDouble || b.k == kDouble {
			x, y := a.f(), b.f()
			return kD(fop(op, x, y))
		}
		x, y := a.f32(), b.f32()
		switch op {
		case '+':
			return kF(x + y)
		case '-':
			return kF(x - y)
		case '*':
			return kF(x * y)
		case '/':
			return kF(x / y)
		}
		return kF(float32(math.Mod(float64(x), float64(y))))
	default:
		rej("%s %c %s", a.what(), op, b.what())
	}
	lit := a.lit && b.lit
	x, y := a.n, b.n
	var r uint64
	switch op {
	case '+':
		r = x + y
	case '-':
		r = x - y
	case '*':
		r = x * y
	default:
		if y == 0 {
			panic(ktThrow{"ArithmeticException", "/ by zero"})
		}
		if k.signed() {
			if op == '/' {
				if int64(y) == -1 {
					r = -x
				} else {
					r = uint64(int64(x) / int64(y))
				}
			} else if int64(y) != -1 {
				r = uint64(int64(x) % int64(y))
			}
		} else if op == '/' {
			r = x / y
		} else {
			r = x % y
		}
	}
	return kv{k: k, lit: lit, n: wrapInt(k, r)}
}

func fop(op byte, x, y float64) float64 {
	switch op {
	case '+':
		return x + y
	case '-':
		return x - y
	case '*':
		return x * y
	case '/':
		return x / y
	}
	return math.Mod(x, y)
}

func compare(a, b kv) int {
	switch {
	case a.k.signed() && b.k.signed():
		return cmp3(int64(a.n) < int64(b.n), a.n == b.n)
	case a.k.unsigned() && b.k.unsigned():
		return cmp3(a.n < b.n, a.n == b.n)
	case (a.k.signed() || a.k.floating()) && (b.k.signed() || b.k.floating()):
		x, y := a.f(), b.f()
		if x != x || y != y {
			return 2
		}
		return cmp3(x < y, x == y)
	case a.k == kString && b.k == kString:
		uns("comparing strings")
	}
	rej("comparing %s and %s", a.what(), b.what())
	return 0
}

func cmp3(less, eq bool) int {
	if less {
		return -1
	}
	if eq {
		return 0
	}
	return 1
}

// equal is ==.
func (vm *kvm) equal(a, b kv) bool {
	if a.k == kNull || b.k == kNull {
		return a.k == b.k
	}
	if a.lit && !b.lit || b.lit && !a.lit || a.k != b.k {
		if a.k.integer() && b.k.integer() && a.k != b.k || (a.k == kBool) != (b.k == kBool) || a.k.floating() != b.k.floating() {
			rej("== of %s and %s", a.what(), b.what())
		}
	}
	if a.k != b.k {
		return false
	}
	switch a.k {
	case kFloat, kDouble:
		return a.f() == b.f()
	case kString:
		return a.o.(string) == b.o.(string)
	case kArr:
		return a.o == b.o
	case kObj:
		return vm.objEquals(a, b)
	}
	return a.n == b.n
}

func (vm *kvm) objEquals(a, b kv) bool {
	x := a.o.(*kobj)
	if x.cls.kind == "enum" {
		return a.o == b.o
	}
	if fn := x.cls.fun("equals", 1); fn != nil {
		return vm.call(fn, x, []kv{b}).n != 0
	}
	if x.cls.src.data {
		uns("equality of data classes")
	}
	return a.o == b.o
}

// boxedEquals is equals() of boxed values, which array comparisons use.
func (vm *kvm) boxedEquals(a, b kv) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case kFloat:
		return canon32(a.n) == canon32(b.n)
	case kDouble:
		return canon64(a.n) == canon64(b.n)
	}
	return vm.equal(a, b)
}

func canon32(n uint64) uint64 {
	if x := math.Float32frombits(uint32(n)); x != x {
		return 0x7fc00000
	}
	return n
}

func canon64(n uint64) uint64 {
	if x := math.Float64frombits(n); x != x {
		return 0x7ff8000000000000
	}
	return n
}

func (vm *kvm) hash(v kv) int32 {
	switch v.k {
	case kNull:
		return 0
	case kBool:
		if v.n != 0 {
			return 1231
		}
		return 1237
	case kByte, kShort, kInt:
		return int32(v.n)
	case kUByte:
		return int32(int8(v.n))
	case kUShort:
		return int32(int16(v.n))
	case kUInt:
		return int32(v.n)
	case kLong, kULong:
		return int32(v.n ^ v.n>>32)
	case kFloat:
		return int32(canon32(v.n))
	case kDouble:
		n := canon64(v.n)
		return int32(n ^ n>>32)
	case kString:
		var h int32
		for _, u := range utf16.Encode([]rune(v.o.(string))) {
			h = 31*h + int32(u)
		}
		return h
	case kObj:
		x := v.o.(*kobj)
		if x.cls.kind == "enum" {
			return int32(x.ord + 1)
		}
		if fn := x.cls.fun("hashCode", 0); fn != nil {
			return int32(vm.call(fn, x, nil).n)
		}
		uns("hashCode of %s", x.cls.name)
	}
	uns("hashCode of %s", v.what())
	return 0
}

func (vm *kvm) contentHash(a *karr, deep bool) int32 {
	h := int32(1)
	for i := 0; i < a.size(); i++ {
		v := a.at(i)
		if deep && v.k == kArr {
			h = 31*h + vm.contentHash(v.o.(*karr), deep)
		} else {
			h = 31*h + vm.hash(v)
		}
	}
	return h
}

func (vm *kvm) contentEquals(a, b *karr, deep bool) bool {
	if a.size() != b.size() {
		return false
	}
	for i := 0; i < a.size(); i++ {
		x, y := a.at(i), b.at(i)
		if deep && x.k == kArr && y.k == kArr {
			if !vm.contentEquals(x.o.(*karr), y.o.(*karr), deep) {
				return false
			}
		} else if x.k == kArr || y.k == kArr {
			if x.o != y.o {
				return false
			}
		} else if !vm.boxedEquals(x, y) {
			return false
		}
	}
	return true
}

func (a *karr) at(i int) kv {
	if a.elem.k == kByte {
		return kv{k: kByte, n: uint64(int64(int8(a.b[i])))}
	}
	return a.v[i]
}

func kstr(v kv) string {
	switch {
	case v.k == kString:
		return v.o.(string)
	case v.k.signed():
		return strconv.FormatInt(int64(v.n), 10)
	case v.k.unsigned():
		return strconv.FormatUint(v.n, 10)
	case v.k == kBool:
		return strconv.FormatBool(v.n != 0)
	case v.k == kNull:
		return "null"
	}
	return "?"
}

// coerce puts a value where a type is expected.
func coerce(v kv, t *kty, where string) kv {
	if t == nil {
		v.lit = false
		return v
	}
	if v.k == kNull {
		if t.null || t.k == kAny {
			return v
		}
		panic(ktThrow{"NullPointerException", "null for " + t.String() + " " + where})
	}
	switch t.k {
	case kAny:
		v.lit = false
		return v
	case kUnit:
		return kv{}
	case kObj:
		if v.k == kObj && v.o.(*kobj).cls == t.cls {
			return v
		}
	case kArr:
		if v.k == kArr {
			e := v.o.(*karr).elem
			if e.k == t.elem.k && e.cls == t.elem.cls && e.null == t.elem.null {
				return v
			}
		}
	default:
		if r, ok := adapt(v, t.k); ok {
			return r
		}
	}
	rej("type mismatch: %s for %s %s", v.what(), t, where)
	return kv{}
}

// ---- loading ----

func (c *kclass) fun(name string, n int) *kfun {
	for _, f := range c.funs[name] {
		if len(f.params) == n {
			return f
		}
	}
	return nil
}

type kcomp struct {
	p      *ktProg
	file   *ktFile
	cls    *kclass
	fn     *kfun
	static bool
	scopes []map[string]*klocal
	n, max int
	prop   *kprop // whose accessor is compiled
}

type klocal struct {
	slot int
	ty   *kty
	mut  bool
}

// ktLoad reads and links a set of files.
func ktLoad(files map[string]string) (p *ktProg, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case ktUnsup:
				err = e
			case ktReject:
				err = e
			case ktThrow:
				err = ktUnsup{"initialisation throws " + e.Error()}
			default:
				panic(r)
			}
		}
	}()
	p = &ktProg{pkgs: map[string]*kpkg{}, vm: &kvm{limit: 1 << 29}}
	var parsed []*ktFile
	for _, name := range sortedKeys(files) {
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case ktReject:
					panic(ktReject{name + ": " + e.msg})
				case ktUnsup:
					panic(ktUnsup{name + ": " + e.msg})
				default:
					panic(e)
				}
			}()
			parsed = append(parsed, ktParse(name, files[name]))
		}()
	}
	var classes []*kclass
	var declare func(f *ktFile, c *ktClass, outer *kclass) *kclass
	declare = func(f *ktFile, c *ktClass, outer *kclass) *kclass {
		if len(c.nested) > 0 {
			uns("nested classes")
		}
		k := &kclass{name: c.name, pkg: f.pkg, file: f, src: c, kind: c.kind, outer: outer, propIdx: map[string]*kprop{}, funs: map[string][]*kfun{}, sprops: map[string]*kprop{}, sfuns: map[string][]*kfun{}}
		classes = append(classes, k)
		return k
	}
	pkg := func(n string) *kpkg {
		if p.pkgs[n] == nil {
			p.pkgs[n] = &kpkg{types: map[string]*kclass{}, funs: map[string][]*kfun{}}
		}
		return p.pkgs[n]
	}
	for _, f := range parsed {
		if len(f.props) > 0 {
			uns("top-level properties")
		}
		for _, c := range f.classes {
			if pkg(f.pkg).types[c.name] != nil {
				rej("%s: redeclaration of %s", f.path, c.name)
			}
			pkg(f.pkg).types[c.name] = declare(f, c, nil)
		}
		for _, x := range f.funs {
			pkg(f.pkg).funs[x.name] = append(pkg(f.pkg).funs[x.name], &kfun{name: x.name, static: true, priv: x.priv, src: x, file: f})
		}
	}
	// members
	var funs []*kfun
	addFun := func(c *kclass, m map[string][]*kfun, x *ktFun, static bool) {
		fn := &kfun{name: x.name, cls: c, static: static, priv: x.priv, src: x, file: c.file}
		for _, o := range m[x.name] {
			if len(o.src.params) == len(x.params) {
				same := true
				for i, q := range x.params {
					same = same && q.ty.String() == o.src.params[i].ty.String()
				}
				if same {
					rej("%s: conflicting overloads of %s.%s", c.file.path, c.name, x.name)
				}
				uns("overloads of %s by type", x.name)
			}
		}
		m[x.name] = append(m[x.name], fn)
		funs = append(funs, fn)
	}
	addProp := func(c *kclass, m map[string]*kprop, x *ktProp) *kprop {
		if m[x.name] != nil {
			rej("%s: conflicting declarations of %s.%s", c.file.path, c.name, x.name)
		}
		q := &kprop{name: x.name, mut: x.mut, priv: x.priv, privSet: x.privSet, cls: c, src: x, idx: -1}
		m[x.name] = q
		return q
	}
	for _, c := range classes {
		s := c.src
		for _, q := range s.params {
			if q.prop != 0 {
				x := addProp(c, c.propIdx, &ktProp{name: q.name, ty: q.ty, mut: q.prop == 'r', priv: q.priv})
				x.idx = c.fields
				c.fields++
				c.props = append(c.props, x)
			}
		}
		for _, x := range s.props {
			q := addProp(c, map[bool]map[string]*kprop{true: c.sprops, false: c.propIdx}[c.kind == "object"], x)
			if c.kind == "object" {
				continue
			}
			c.props = append(c.props, q)
			if x.get == nil || x.init != nil || x.mut && x.set == nil {
				q.idx = c.fields
				c.fields++
			}
		}
		for _, f := range s.funs {
			if c.kind == "object" {
				addFun(c, c.sfuns, f, true)
			} else {
				addFun(c, c.funs, f, false)
			}
		}
		if s.comp != nil {
			for _, f := range s.comp.funs {
				addFun(c, c.sfuns, f, true)
			}
			for _, x := range s.comp.props {
				addProp(c, c.sprops, x)
			}
			if len(s.comp.nested) > 0 {
				uns("nested classes")
			}
		}
	}
	for _, k := range p.pkgs {
		for _, fs := range k.funs {
			if len(fs) > 1 {
				uns("overloaded top-level functions")
			}
			funs = append(funs, fs...)
		}
	}
	comp := func(c *kclass, file *ktFile, static bool) *kcomp {
		return &kcomp{p: p, file: file, cls: c, static: static}
	}
	// signatures
	for _, c := range classes {
		k := comp(c, c.file, false)
		for _, q := range c.src.params {
			x := kparam{name: q.name, ty: k.typ(q.ty), prop: -1}
			if q.prop != 0 {
				x.prop = c.propIdx[q.name].idx
			}
			c.ctor = append(c.ctor, x)
		}
		for _, m := range []map[string]*kprop{c.propIdx, c.sprops} {
			for _, n := range sortedKeys(m) {
				if q := m[n]; q.src.ty != nil {
					q.ty = k.typ(q.src.ty)
				}
			}
		}
	}
	for _, fn := range funs {
		k := comp(fn.cls, fn.file, fn.static)
		for _, q := range fn.src.params {
			fn.params = append(fn.params, kparam{name: q.name, ty: k.typ(q.ty), prop: -1})
		}
		if fn.src.ret != nil {
			fn.ret = k.typ(fn.src.ret)
		} else if !fn.src.expr {
			fn.ret = &kty{k: kUnit}
		}
	}
	// bodies
	for _, c := range classes {
		k := comp(c, c.file, false)
		for _, q := range c.props {
			if q.src.init != nil {
				k.begin(nil)
				for i, cp := range c.ctor {
					_ = i
					k.declare(cp.name, cp.ty, false)
				}
				e, t := k.expr(q.src.init)
				q.init = e
				if q.ty == nil {
					q.ty = t
				}
			} else if q.idx >= 0 && q.src.get == nil && !contains(ctorNames(c), q.name) {
				rej("%s: property %s must be initialised", c.file.path, q.name)
			}
		}
		c.ctorFn = &kfun{slots: k.max + len(c.ctor) + 8}
		for i, q := range c.src.params {
			if q.def != nil {
				uns("constructor defaults")
			}
			_ = i
		}
	}
	for _, c := range classes {
		for _, q := range c.props {
			for _, acc := range []struct {
				src *ktFun
				set bool
			}{{q.src.get, false}, {q.src.set, true}} {
				if acc.src == nil {
					continue
				}
				fn := &kfun{name: acc.src.name, cls: c, src: acc.src, file: c.file}
				k := comp(c, c.file, false)
				k.prop = q
				if acc.set {
					fn.params = []kparam{{name: acc.src.params[0].name, ty: q.ty}}
					fn.ret = &kty{k: kUnit}
					q.set = fn
				} else {
					fn.ret = q.ty
					q.get = fn
				}
				k.function(fn)
			}
			if q.get != nil && q.mut && q.set == nil && q.idx < 0 {
				rej("%s: property %s needs a setter", c.file.path, q.name)
			}
		}
	}
	for _, fn := range funs {
		comp(fn.cls, fn.file, fn.static).function(fn)
	}
	// statics and enum entries
	for _, c := range classes {
		k := comp(c, c.file, true)
		for _, n := range sortedKeys(c.sprops) {
			q := c.sprops[n]
			if q.src.init == nil || q.src.get != nil {
				uns("companion property %s", n)
			}
			k.begin(nil)
			e, _ := k.expr(q.src.init)
			q.idx = len(c.statics)
			c.statics = append(c.statics, coerce(e(&kframe{vm: p.vm, s: make([]kv, k.max+4)}), q.ty, n))
		}
		for i, en := range c.src.entries {
			k.begin(nil)
			o := &kobj{cls: c, f: make([]kv, c.fields), entry: en.name, ord: i}
			if len(en.args) != len(c.ctor) {
				rej("%s: enum entry %s has %d arguments", c.file.path, en.name, len(en.args))
			}
			for j, a := range en.args {
				e, _ := k.expr(a.kids[0])
				v := coerce(e(&kframe{vm: p.vm, s: make([]kv, k.max+4)}), c.ctor[j].ty, en.name)
				if c.ctor[j].prop >= 0 {
					o.f[c.ctor[j].prop] = v
				}
			}
			for _, x := range c.entries {
				if x.entry == en.name {
					rej("%s: enum entry %s twice", c.file.path, en.name)
				}
			}
			c.entries = append(c.entries, o)
		}
	}
	return p, nil
}

func ctorNames(c *kclass) []string {
	var out []string
	for _, q := range c.src.params {
		out = append(out, q.name)
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var arrayTypes = map[string]kk{"BooleanArray": kBool, "ByteArray": kByte, "ShortArray": kShort, "IntArray": kInt, "LongArray": kLong, "UByteArray": kUByte, "UShortArray": kUShort, "UIntArray": kUInt, "ULongArray": kULong, "FloatArray": kFloat, "DoubleArray": kDouble}

// class finds a type visible in a file.
func (k *kcomp) class(name string) *kclass {
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		if q := k.p.pkgs[name[:i]]; q != nil {
			return q.types[name[i+1:]]
		}
		return nil
	}
	for _, im := range k.file.imports {
		if im[strings.LastIndexByte(im, '.')+1:] == name {
			if c := k.class(im); c != nil {
				return c
			}
		}
	}
	if q := k.p.pkgs[k.file.pkg]; q != nil && q.types[name] != nil {
		return q.types[name]
	}
	var found *kclass
	for _, im := range k.file.imports {
		if strings.HasSuffix(im, ".*") {
			if q := k.p.pkgs[strings.TrimSuffix(im, ".*")]; q != nil && q.types[name] != nil {
				if found != nil && found != q.types[name] {
					rej("%s: %s is ambiguous", k.file.path, name)
				}
				found = q.types[name]
			}
		}
	}
	return found
}

func (k *kcomp) typ(t *ktType) *kty {
	// the generated types come first, as everything of the file and its imports does
	if c := k.class(t.name); c != nil {
		return &kty{k: kObj, cls: c, null: t.null}
	}
	n := strings.TrimPrefix(t.name, "kotlin.")
	if b, ok := basicTypes[n]; ok {
		return &kty{k: b, null: t.null}
	}
	if b, ok := arrayTypes[n]; ok {
		return &kty{k: kArr, elem: &kty{k: b}, null: t.null}
	}
	if n == "Array" && len(t.args) == 1 {
		return &kty{k: kArr, elem: k.typ(t.args[0]), null: t.null}
	}
	if k.known(n) {
		rej("%s: unresolved reference: %s", k.file.path, t.name)
	}
	uns("%s: type %s", k.file.path, t)
	return nil
}

// known tells whether a name is a type of some package that is not imported.
func (k *kcomp) known(name string) bool {
	for _, q := range k.p.pkgs {
		if q.types[name] != nil {
			return true
		}
	}
	return false
}

// ---- running ----

func (vm *kvm) call(fn *kfun, this *kobj, args []kv) (out kv) {
	vm.tick()
	if vm.depth > 2000 {
		panic(ktThrow{"StackOverflowError", ""})
	}
	vm.depth++
	defer func() { vm.depth-- }()
	f := &kframe{vm: vm, s: make([]kv, fn.slots), this: this}
	for i := range fn.params {
		q := &fn.params[i]
		switch {
		case i < len(args) && args[i].k != kAny:
			f.s[i] = coerce(args[i], q.ty, "parameter "+q.name)
		case q.def != nil:
			f.s[i] = coerce(q.def(f), q.ty, "parameter "+q.name)
		default:
			rej("no value for parameter %s of %s", q.name, fn.name)
		}
	}
	if fn.catch {
		defer func() {
			if r := recover(); r != nil {
				if j, ok := r.(kjump); ok && j.f == f {
					out = coerce(f.ret, fn.ret, "result of "+fn.name)
					return
				}
				panic(r)
			}
		}()
	}
	if fn.body(f) != cReturn && fn.ret != nil && fn.ret.k != kUnit {
		rej("%s does not return a value", fn.name)
	}
	return coerce(f.ret, fn.ret, "result of "+fn.name)
}

func (vm *kvm) construct(c *kclass, args []kv) *kobj {
	vm.tick()
	if c.kind != "class" {
		rej("%s cannot be constructed", c.name)
	}
	if len(args) != len(c.ctor) {
		rej("constructor of %s takes %d arguments", c.name, len(c.ctor))
	}
	o := &kobj{cls: c, f: make([]kv, c.fields)}
	f := &kframe{vm: vm, s: make([]kv, c.ctorFn.slots), this: o}
	for i, q := range c.ctor {
		f.s[i] = coerce(args[i], q.ty, q.name)
		if q.prop >= 0 {
			o.f[q.prop] = f.s[i]
		}
	}
	for _, q := range c.props {
		if q.init != nil {
			o.f[q.idx] = coerce(q.init(f), q.ty, "property "+q.name)
		}
	}
	return o
}

func (vm *kvm) getProp(o *kobj, q *kprop) kv {
	if q.get != nil {
		return vm.call(q.get, o, nil)
	}
	return o.f[q.idx]
}

func (vm *kvm) setProp(o *kobj, q *kprop, v kv) {
	v = coerce(v, q.ty, "property "+q.name)
	if q.set != nil {
		vm.call(q.set, o, []kv{v})
		return
	}
	o.f[q.idx] = v
}

func newArray(elem *kty, n int) *karr {
	if n < 0 {
		panic(ktThrow{"NegativeArraySizeException", strconv.Itoa(n)})
	}
	if n > 1<<26 {
		panic(ktThrow{"OutOfMemoryError", strconv.Itoa(n)})
	}
	a := &karr{elem: elem}
	if elem.k == kByte {
		a.b = make([]byte, n)
		return a
	}
	a.v = make([]kv, n)
	for i := range a.v {
		a.v[i] = kv{k: elem.k}
		if elem.null {
			a.v[i] = kv{k: kNull}
		}
	}
	return a
}

func bound(i int64, n int) int {
	if i < 0 || i >= int64(n) {
		panic(ktThrow{"ArrayIndexOutOfBoundsException", fmt.Sprintf("Index %d out of bounds for length %d", i, n)})
	}
	return int(i)
}

func index(a, i kv) (*karr, int) {
	if a.k == kNull {
		panic(ktThrow{"NullPointerException", "index"})
	}
	if a.k != kArr {
		uns("index into %s", a.what())
	}
	x := a.o.(*karr)
	if i.k != kInt {
		if j, ok := adapt(i, kInt); ok {
			i = j
		} else if i.k == kByte || i.k == kShort || i.k == kLong || i.k.unsigned() {
			rej("index of type %s", i.what())
		} else {
			uns("index of type %s", i.what())
		}
	}
	return x, bound(int64(i.n), x.size())
}

func (a *karr) set(i int, v kv) {
	v = coerce(v, a.elem, "array element")
	if a.elem.k == kByte {
		a.b[i] = byte(v.n)
	} else {
		a.v[i] = v
	}
}

// ---- compiling ----

func (k *kcomp) begin(fn *kfun) {
	k.fn, k.scopes, k.n = fn, []map[string]*klocal{{}}, 0
	if fn != nil {
		k.max = 0
	}
}

func (k *kcomp) declare(name string, t *kty, mut bool) int {
	top := k.scopes[len(k.scopes)-1]
	if top[name] != nil {
		rej("%s: conflicting declarations of %s", k.file.path, name)
	}
	top[name] = &klocal{k.n, t, mut}
	k.n++
	if k.n > k.max {
		k.max = k.n
	}
	return k.n - 1
}

func (k *kcomp) push() { k.scopes = append(k.scopes, map[string]*klocal{}) }
func (k *kcomp) pop()  { k.scopes = k.scopes[:len(k.scopes)-1] }

func (k *kcomp) local(name string) *klocal {
	for i := len(k.scopes) - 1; i >= 0; i-- {
		if l := k.scopes[i][name]; l != nil {
			return l
		}
	}
	return nil
}

func (k *kcomp) function(fn *kfun) {
	k.begin(fn)
	for i := range fn.params {
		if fn.src.params[i].def != nil {
			e, _ := k.expr(fn.src.params[i].def)
			fn.params[i].def = e
		}
		k.declare(fn.params[i].name, fn.params[i].ty, false)
	}
	if fn.src.expr {
		e, _ := k.expr(fn.src.body)
		fn.body = func(f *kframe) kctl { f.ret = e(f); return cReturn }
	} else {
		k.push()
		fn.body = k.block(fn.src.body, false)
		k.pop()
	}
	fn.slots = k.max
}

// block compiles statements; the scope is the caller's.
func (k *kcomp) block(n *ktN, scope bool) kstmt {
	if scope {
		k.push()
		defer k.pop()
	}
	var list []kstmt
	for _, s := range n.kids {
		list = append(list, k.stmt(s))
	}
	return func(f *kframe) kctl {
		for _, s := range list {
			if f.vm.point != nil {
				f.vm.point()
			}
			if c := s(f); c != cNext {
				return c
			}
		}
		return cNext
	}
}

func (k *kcomp) cond(n *ktN) func(f *kframe) bool {
	e, _ := k.expr(n)
	line := n.line
	return func(f *kframe) bool {
		v := e(f)
		if v.k != kBool {
			rej("line %d: condition of type %s", line, v.what())
		}
		return v.n != 0
	}
}

func (k *kcomp) stmt(n *ktN) kstmt {
	switch n.k {
	case "block":
		return k.block(n, true)
	case "local":
		var e kexpr
		var st *kty
		if len(n.kids) > 0 {
			e, st = k.expr(n.kids[0])
		}
		var t *kty
		if n.ty != nil {
			t = k.typ(n.ty)
		} else if e == nil {
			rej("%s: %s has neither type nor value", k.file.path, n.s)
		}
		lt := t
		if lt == nil {
			lt = st
		}
		slot := k.declare(n.s, lt, n.flag || e == nil)
		name := n.s
		if e == nil {
			return func(f *kframe) kctl { return cNext }
		}
		return func(f *kframe) kctl { f.s[slot] = coerce(e(f), t, name); return cNext }
	case "assign":
		return k.assign(n)
	case "while", "do":
		cond := k.cond(n.kids[0])
		body := k.block(n.kids[1], true)
		do := n.k == "do"
		return func(f *kframe) kctl {
			for first := do; first || cond(f); first = false {
				f.vm.tick()
				if c := body(f); c == cReturn {
					return c
				} else if c == cBreak {
					break
				}
			}
			return cNext
		}
	case "for":
		e, _ := k.expr(n.kids[0])
		k.push()
		slot := k.declare(n.s, nil, false)
		body := k.block(n.kids[1], true)
		k.pop()
		return func(f *kframe) kctl {
			return each(f, e(f), func(v kv) kctl { f.s[slot] = v; return body(f) })
		}
	case "if":
		cond := k.cond(n.kids[0])
		yes := k.block(n.kids[1], true)
		no := kstmt(func(f *kframe) kctl { return cNext })
		if len(n.kids) > 2 {
			no = k.block(n.kids[2], true)
		}
		return func(f *kframe) kctl {
			if cond(f) {
				return yes(f)
			}
			return no(f)
		}
	case "when":
		pick := k.when(n)
		var bodies []kstmt
		for _, b := range n.kids[1:] {
			bodies = append(bodies, k.block(b.kids[len(b.kids)-1], true))
		}
		return func(f *kframe) kctl {
			if i := pick(f); i >= 0 {
				return bodies[i](f)
			}
			return cNext
		}
	case "return":
		if len(n.kids) == 0 {
			return func(f *kframe) kctl { f.ret = kv{}; return cReturn }
		}
		e, _ := k.expr(n.kids[0])
		return func(f *kframe) kctl { f.ret = e(f); return cReturn }
	case "break":
		return func(f *kframe) kctl { return cBreak }
	case "continue":
		return func(f *kframe) kctl { return cContinue }
	case "call":
		// run { … } and repeat(n) { … } are blocks of the function they stand in
		if n.kids[0].k == "name" && len(n.kids) > 1 {
			last := n.kids[len(n.kids)-1].kids[0]
			if n.kids[0].s == "run" && len(n.kids) == 2 && last.k == "lambda" && k.local("run") == nil {
				return k.block(last.kids[0], true)
			}
			if n.kids[0].s == "repeat" && len(n.kids) == 3 && last.k == "lambda" {
				cnt, _ := k.expr(n.kids[1].kids[0])
				k.push()
				name := last.s
				if name == "" {
					name = "it"
				}
				slot := k.declare(name, &kty{k: kInt}, false)
				body := k.block(last.kids[0], true)
				k.pop()
				return func(f *kframe) kctl {
					m := coerce(cnt(f), &kty{k: kInt}, "repeat")
					return each(f, kv{k: kRange, o: &krange{0, int64(m.n) - 1, 1}}, func(v kv) kctl { f.s[slot] = v; return body(f) })
				}
			}
		}
	}
	e, _ := k.expr(n)
	return func(f *kframe) kctl { e(f); return cNext }
}

func each(f *kframe, v kv, body func(kv) kctl) kctl {
	switch v.k {
	case kRange:
		r := v.o.(*krange)
		t := kInt
		if v.n == 1 {
			t = kLong
		}
		for i := r.from; r.step > 0 && i <= r.to || r.step < 0 && i >= r.to; i += r.step {
			f.vm.tick()
			if c := body(kv{k: t, n: uint64(i)}); c == cReturn {
				return c
			} else if c == cBreak {
				break
			}
			if i == r.to {
				break
			}
		}
	case kArr:
		a := v.o.(*karr)
		for i := 0; i < a.size(); i++ {
			f.vm.tick()
			if c := body(a.at(i)); c == cReturn {
				return c
			} else if c == cBreak {
				break
			}
		}
	default:
		uns("for over %s", v.what())
	}
	return cNext
}

// when gives the index of the branch taken, or -1.
func (k *kcomp) when(n *ktN) func(f *kframe) int {
	var subj kexpr
	slot := -1
	if n.kids[0] != nil {
		subj, _ = k.expr(n.kids[0])
		slot = k.n
		k.n++
		if k.n > k.max {
			k.max = k.n
		}
	}
	type br struct{ conds []func(f *kframe) bool }
	var brs []br
	for _, b := range n.kids[1:] {
		var x br
		for _, c := range b.kids[:len(b.kids)-1] {
			switch {
			case c.k == "in" && c.kids[0] == nil:
				e, _ := k.expr(c.kids[1])
				x.conds = append(x.conds, func(f *kframe) bool { return inRange(f.s[slot], e(f)) })
			case subj != nil:
				e, _ := k.expr(c)
				x.conds = append(x.conds, func(f *kframe) bool {
					v := e(f)
					if a, ok := adapt(v, f.s[slot].k); ok {
						v = a
					}
					return f.vm.equal(f.s[slot], v)
				})
			default:
				x.conds = append(x.conds, k.cond(c))
			}
		}
		brs = append(brs, x)
	}
	return func(f *kframe) int {
		if subj != nil {
			f.s[slot] = coerce(subj(f), nil, "")
		}
		for i, b := range brs {
			if len(b.conds) == 0 {
				return i
			}
			for _, c := range b.conds {
				if c(f) {
					return i
				}
			}
		}
		return -1
	}
}

func inRange(v, r kv) bool {
	if r.k != kRange || !v.k.signed() {
		uns("in %s", r.what())
	}
	x := r.o.(*krange)
	n := int64(v.n)
	if x.step != 1 {
		uns("in a progression")
	}
	return n >= x.from && n <= x.to
}

// value compiles a block used as an expression.
func (k *kcomp) value(n *ktN) (kexpr, *kty) {
	if n.k != "block" {
		return k.expr(n)
	}
	k.push()
	defer k.pop()
	if len(n.kids) == 0 {
		return func(f *kframe) kv { return kv{} }, nil
	}
	var list []kstmt
	for _, s := range n.kids[:len(n.kids)-1] {
		list = append(list, k.stmt(s))
	}
	last := n.kids[len(n.kids)-1]
	var e kexpr
	var t *kty
	switch last.k {
	case "local", "assign", "while", "do", "for":
		list = append(list, k.stmt(last))
		e = func(f *kframe) kv { return kv{} }
	default:
		e, t = k.expr(last)
	}
	if len(list) > 0 && k.fn != nil {
		k.fn.catch = true
	}
	return func(f *kframe) kv {
		for _, s := range list {
			switch s(f) {
			case cReturn:
				panic(kjump{f})
			case cBreak, cContinue:
				uns("break out of an expression")
			}
		}
		return e(f)
	}, t
}

func (k *kcomp) assign(n *ktN) kstmt {
	lhs, op := n.kids[0], n.s
	rhs, _ := k.expr(n.kids[1])
	combine := func(f *kframe, old func() kv) kv {
		v := rhs(f)
		if op == "=" {
			return v
		}
		o := old()
		return arith(op[0], o, v)
	}
	return k.store(lhs, combine)
}

// store compiles the target of an assignment; v gets the way to read the old value.
func (k *kcomp) store(lhs *ktN, val func(f *kframe, old func() kv) kv) kstmt {
	for lhs.k == "par" {
		lhs = lhs.kids[0]
	}
	line := lhs.line
	switch lhs.k {
	case "name":
		if l := k.local(lhs.s); l != nil {
			if !l.mut {
				rej("%s:%d: val %s cannot be reassigned", k.file.path, line, lhs.s)
			}
			slot, t, name := l.slot, l.ty, lhs.s
			return func(f *kframe) kctl {
				v := val(f, func() kv { return f.s[slot] })
				if t == nil && f.s[slot].k != kUnit && v.k != kNull {
					t := f.s[slot].k
					if a, ok := adapt(v, t); ok {
						v = a
					} else if t != kNull {
						rej("line %d: type mismatch: %s for %s", line, v.what(), kkName[t])
					}
				}
				f.s[slot] = coerce(v, t, name)
				return cNext
			}
		}
		if lhs.s == "field" && k.prop != nil && k.prop.idx >= 0 {
			q := k.prop
			return func(f *kframe) kctl {
				f.this.f[q.idx] = coerce(val(f, func() kv { return f.this.f[q.idx] }), q.ty, q.name)
				return cNext
			}
		}
		if k.cls != nil && !k.static && k.cls.propIdx[lhs.s] != nil {
			q := k.cls.propIdx[lhs.s]
			return k.storeProp(func(f *kframe) kv { return kv{k: kObj, o: f.this} }, q, val, line)
		}
		uns("assignment to %s in line %d", lhs.s, line)
	case "dot":
		e, t := k.expr(lhs.kids[0])
		if lhs.flag {
			uns("?. in an assignment")
		}
		name := lhs.s
		if t != nil && t.k == kObj && t.cls.propIdx[name] != nil {
			return k.storeProp(e, t.cls.propIdx[name], val, line)
		}
		return func(f *kframe) kctl {
			o := e(f)
			if o.k != kObj {
				uns("assignment to %s of %s", name, o.what())
			}
			x := o.o.(*kobj)
			q := x.cls.propIdx[name]
			if q == nil {
				rej("line %d: unresolved reference: %s of %s", line, name, x.cls.name)
			}
			return k.storeProp(func(*kframe) kv { return o }, q, val, line)(f)
		}
	case "index":
		a, _ := k.expr(lhs.kids[0])
		i, _ := k.expr(lhs.kids[1])
		return func(f *kframe) kctl {
			av, iv := a(f), i(f)
			// the place is looked up before the value is computed only for what it is,
			// the bounds are checked when the value is stored
			v := val(f, func() kv {
				x, j := index(av, iv)
				return x.at(j)
			})
			x, j := index(av, iv)
			x.set(j, v)
			return cNext
		}
	}
	rej("%s:%d: cannot be assigned to", k.file.path, line)
	return nil
}

func (k *kcomp) storeProp(obj kexpr, q *kprop, val func(f *kframe, old func() kv) kv, line int) kstmt {
	if !q.mut {
		rej("%s:%d: val %s cannot be reassigned", k.file.path, line, q.name)
	}
	if (q.priv || q.privSet) && q.cls != k.cls {
		rej("%s:%d: %s of %s is private", k.file.path, line, q.name, q.cls.name)
	}
	return func(f *kframe) kctl {
		o := obj(f)
		if o.k != kObj {
			panic(ktThrow{"NullPointerException", q.name})
		}
		x := o.o.(*kobj)
		f.vm.setProp(x, q, val(f, func() kv { return f.vm.getProp(x, q) }))
		return cNext
	}
}

var kTypes = map[kk]*kty{}

func init() {
	for k := kUnit; k <= kAny; k++ {
		kTypes[k] = &kty{k: k}
	}
}

// number reads a numeric literal.
func number(s string, line int) kv {
	t := strings.ReplaceAll(s, "_", "")
	low := strings.ToLower(t)
	hex := strings.HasPrefix(low, "0x")
	bin := strings.HasPrefix(low, "0b")
	if !hex && (strings.ContainsAny(low, ".e") || !bin && strings.HasSuffix(low, "f")) {
		if strings.HasSuffix(low, "f") {
			x, err := strconv.ParseFloat(low[:len(low)-1], 32)
			if err != nil && !strings.Contains(err.Error(), "range") {
				rej("line %d: number %s", line, s)
			}
			if math.IsInf(x, 0) {
				rej("line %d: %s is beyond Float", line, s)
			}
			return kF(float32(x))
		}
		x, err := strconv.ParseFloat(low, 64)
		if err != nil && !strings.Contains(err.Error(), "range") {
			rej("line %d: number %s", line, s)
		}
		if math.IsInf(x, 0) {
			rej("line %d: %s is beyond Double", line, s)
		}
		return kD(x)
	}
	long := strings.HasSuffix(t, "L")
	if long {
		t = t[:len(t)-1]
	}
	unsigned := strings.HasSuffix(strings.ToLower(t), "u")
	if unsigned {
		t = t[:len(t)-1]
	}
	base := 10
	switch {
	case hex:
		base, t = 16, t[2:]
	case bin:
		base, t = 2, t[2:]
	case len(t) > 1 && t[0] == '0':
		rej("line %d: number %s begins with 0", line, s)
	}
	n, err := strconv.ParseUint(t, base, 64)
	if err != nil {
		rej("line %d: number %s", line, s)
	}
	if unsigned {
		switch {
		case long:
			return kv{k: kULong, n: n}
		case n > math.MaxUint32:
			return kv{k: kULong, n: n, lit: true}
		}
		return kv{k: kUInt, n: n, lit: true}
	}
	if n > math.MaxInt64 {
		rej("line %d: the value %s is out of range", line, s)
	}
	switch {
	case long:
		return kv{k: kLong, n: n}
	case n > math.MaxInt32:
		return kv{k: kLong, n: n, lit: true}
	}
	return kv{k: kInt, n: n, lit: true}
}

func konst(v kv) (kexpr, *kty) {
	t := kTypes[v.k]
	if v.lit {
		t = nil
	}
	return func(*kframe) kv { return v }, t
}

// expr compiles an expression; the type is given when it is certain.
func (k *kcomp) expr(n *ktN) (kexpr, *kty) {
	line := n.line
	switch n.k {
	case "num":
		return konst(number(n.s, line))
	case "str":
		return konst(kS(n.s))
	case "true", "false":
		return konst(kB(n.k == "true"))
	case "null":
		return func(*kframe) kv { return kv{k: kNull} }, nil
	case "par":
		return k.expr(n.kids[0])
	case "this":
		if k.static || k.cls == nil {
			rej("%s:%d: this outside of an object", k.file.path, line)
		}
		return func(f *kframe) kv { return kv{k: kObj, o: f.this} }, &kty{k: kObj, cls: k.cls}
	case "name":
		return k.name(n)
	case "dot":
		return k.dot(n)
	case "call":
		return k.call(n)
	case "index":
		a, t := k.expr(n.kids[0])
		i, _ := k.expr(n.kids[1])
		var et *kty
		if t != nil && t.k == kArr {
			et = t.elem
		}
		return func(f *kframe) kv {
			x, j := index(a(f), i(f))
			return x.at(j)
		}, et
	case "nn":
		e, t := k.expr(n.kids[0])
		if t != nil && t.null {
			c := *t
			c.null = false
			t = &c
		}
		return func(f *kframe) kv {
			v := e(f)
			if v.k == kNull {
				panic(ktThrow{"NullPointerException", "!!"})
			}
			return v
		}, t
	case "pre":
		if n.s == "++" || n.s == "--" {
			return k.incr(n, true)
		}
		e, _ := k.expr(n.kids[0])
		op := n.s
		return func(f *kframe) kv {
			v := e(f)
			switch {
			case op == "!" && v.k == kBool:
				v.n ^= 1
				return v
			case op == "-" && v.k.signed():
				r := v.k
				if r != kLong {
					r = kInt
				}
				return kv{k: r, lit: v.lit, n: wrapInt(r, -v.n)}
			case op == "-" && v.k == kFloat:
				return kv{k: kFloat, n: v.n ^ 1<<31}
			case op == "-" && v.k == kDouble:
				return kv{k: kDouble, n: v.n ^ 1<<63}
			case op == "+" && (v.k.signed() || v.k.floating()):
				if v.k == kByte || v.k == kShort {
					v.k = kInt
				}
				return v
			}
			rej("line %d: %s has no %s", line, v.what(), op)
			return kv{}
		}, nil
	case "post":
		return k.incr(n, false)
	case "bin":
		return k.bin(n)
	case "infix":
		l, _ := k.expr(n.kids[0])
		r, _ := k.expr(n.kids[1])
		fn := k.method(n.s, line)
		if fn == nil {
			uns("infix %s in line %d", n.s, line)
		}
		return func(f *kframe) kv { return fn(f, l(f), []kv{r(f)}) }, nil
	case "is":
		e, _ := k.expr(n.kids[0])
		t := k.typ(n.ty)
		not := n.flag
		return func(f *kframe) kv {
			v := e(f)
			var is bool
			switch t.k {
			case kObj:
				is = v.k == kObj && v.o.(*kobj).cls == t.cls
			case kArr:
				uns("is array")
			case kAny:
				is = v.k != kNull
			default:
				is = v.k == t.k
			}
			if v.k == kNull {
				is = t.null
			}
			return kB(is != not)
		}, kTypes[kBool]
	case "as":
		e, _ := k.expr(n.kids[0])
		t := k.typ(n.ty)
		return func(f *kframe) kv { return coerce(e(f), t, "as") }, t
	case "in":
		e, _ := k.expr(n.kids[0])
		r, _ := k.expr(n.kids[1])
		not := n.flag
		return func(f *kframe) kv { return kB(inRange(e(f), r(f)) != not) }, kTypes[kBool]
	case "if":
		cond := k.cond(n.kids[0])
		if len(n.kids) < 3 {
			s := k.stmt(n)
			if k.fn != nil {
				k.fn.catch = true
			}
			return func(f *kframe) kv {
				if s(f) == cReturn {
					panic(kjump{f})
				}
				return kv{}
			}, kTypes[kUnit]
		}
		y, ty := k.value(n.kids[1])
		z, tz := k.value(n.kids[2])
		if ty == nil || tz == nil || ty.k != tz.k || ty.cls != tz.cls || ty.k == kArr {
			ty = nil
		} else if tz.null {
			ty = tz
		}
		return func(f *kframe) kv {
			if cond(f) {
				return y(f)
			}
			return z(f)
		}, ty
	case "when":
		pick := k.when(n)
		var bodies []kexpr
		for _, b := range n.kids[1:] {
			e, _ := k.value(b.kids[len(b.kids)-1])
			bodies = append(bodies, e)
		}
		return func(f *kframe) kv {
			if i := pick(f); i >= 0 {
				return bodies[i](f)
			}
			rej("line %d: when has no else", line)
			return kv{}
		}, nil
	case "return":
		s := k.stmt(n)
		if k.fn == nil {
			rej("return outside of a function")
		}
		k.fn.catch = true
		return func(f *kframe) kv { s(f); panic(kjump{f}) }, nil
	case "throw":
		c := n.kids[0]
		if c.k == "call" && c.kids[0].k == "name" && k.class(c.kids[0].s) == nil {
			name := c.kids[0].s
			return func(f *kframe) kv { panic(ktThrow{name, "thrown"}) }, nil
		}
		uns("throw in line %d", line)
	}
	uns("%s in line %d", n.k, line)
	return nil, nil
}

func (k *kcomp) incr(n *ktN, pre bool) (kexpr, *kty) {
	old, _ := k.expr(n.kids[0])
	op := n.s[0]
	st := k.store(n.kids[0], func(f *kframe, _ func() kv) kv {
		o := old(f)
		one := kv{k: kInt, n: 1}
		if o.k.unsigned() {
			one.k = kUInt
		} else if o.k == kNull || !o.k.signed() && !o.k.floating() {
			rej("%s has no %s", o.what(), n.s)
		}
		r := arith(op, o, one)
		if o.k.integer() {
			r = kv{k: o.k, n: wrapInt(o.k, r.n)}
		}
		return r
	})
	return func(f *kframe) kv {
		v := old(f)
		st(f)
		if pre {
			return old(f)
		}
		return v
	}, nil
}

func (k *kcomp) bin(n *ktN) (kexpr, *kty) {
	op := n.s
	line := n.line
	l, lt := k.expr(n.kids[0])
	r, rt := k.expr(n.kids[1])
	B := kTypes[kBool]
	boolean := func(v kv) bool {
		if v.k != kBool {
			rej("line %d: %s is applied to %s", line, op, v.what())
		}
		return v.n != 0
	}
	switch op {
	case "&&":
		return func(f *kframe) kv { return kB(boolean(l(f)) && boolean(r(f))) }, B
	case "||":
		return func(f *kframe) kv { return kB(boolean(l(f)) || boolean(r(f))) }, B
	case "?:":
		return func(f *kframe) kv {
			if v := l(f); v.k != kNull {
				return v
			}
			return r(f)
		}, nil
	case "==", "!=":
		not := op == "!="
		// numbers of different types cannot be compared
		if lt != nil && rt != nil && !lt.null && !rt.null && lt.k != rt.k && lt.k.integer() && rt.k.integer() {
			rej("%s:%d: == of %s and %s", k.file.path, line, lt, rt)
		}
		return func(f *kframe) kv { return kB(f.vm.equal(l(f), r(f)) != not) }, B
	case "===", "!==":
		not := op == "!=="
		return func(f *kframe) kv {
			a, b := l(f), r(f)
			if a.k != kObj && a.k != kArr && a.k != kNull || b.k != kObj && b.k != kArr && b.k != kNull {
				uns("=== of %s", a.what())
			}
			return kB((a.k == b.k && a.o == b.o) != not)
		}, B
	case "<", ">", "<=", ">=":
		return func(f *kframe) kv {
			a, b := l(f), r(f)
			c := 0
			if a.k == kInt && b.k == kInt {
				c = cmp3(int64(a.n) < int64(b.n), a.n == b.n)
			} else {
				c = compare(a, b)
			}
			switch op {
			case "<":
				return kB(c == -1)
			case ">":
				return kB(c == 1)
			case "<=":
				return kB(c == -1 || c == 0)
			}
			return kB(c == 1 || c == 0)
		}, B
	case "..", "..<":
		ex := op == "..<"
		return func(f *kframe) kv { return mkRange(l(f), r(f), ex) }, nil
	}
	var t *kty
	if lt != nil && rt != nil {
		switch {
		case lt.null || rt.null:
		case lt.k == kString:
			t = lt
		case lt.k == kLong && rt.k.signed() || lt.k.signed() && rt.k == kLong:
			t = kTypes[kLong]
		case lt.k.signed() && rt.k.signed():
			t = kTypes[kInt]
		case lt.k == kULong && rt.k.unsigned() || lt.k.unsigned() && rt.k == kULong:
			t = kTypes[kULong]
		case lt.k.unsigned() && rt.k.unsigned():
			t = kTypes[kUInt]
		}
	}
	c := op[0]
	return func(f *kframe) kv {
		a, b := l(f), r(f)
		if a.k == kInt && b.k == kInt && !(a.lit && b.lit) {
			switch c {
			case '+':
				return kv{k: kInt, n: uint64(int64(int32(a.n + b.n)))}
			case '-':
				return kv{k: kInt, n: uint64(int64(int32(a.n - b.n)))}
			}
		}
		return arith(c, a, b)
	}, t
}

func mkRange(a, b kv, excl bool) kv {
	if !a.k.signed() || !b.k.signed() {
		if a.k.unsigned() || b.k.unsigned() {
			uns("range of unsigned numbers")
		}
		rej("range of %s and %s", a.what(), b.what())
	}
	v := kv{k: kRange, o: &krange{int64(a.n), int64(b.n), 1}}
	if excl {
		v.o.(*krange).to--
	}
	if a.k == kLong && !a.lit || b.k == kLong && !b.lit {
		v.n = 1
	}
	return v
}

func (k *kcomp) name(n *ktN) (kexpr, *kty) {
	name := n.s
	if l := k.local(name); l != nil {
		slot, t := l.slot, l.ty
		if t != nil && t.null {
			t = nil // may be smart cast
		}
		return func(f *kframe) kv { return f.s[slot] }, t
	}
	if name == "field" && k.prop != nil && k.prop.idx >= 0 {
		q := k.prop
		return func(f *kframe) kv { return f.this.f[q.idx] }, q.ty
	}
	if k.cls != nil {
		if q := k.cls.propIdx[name]; q != nil {
			if k.static {
				rej("%s:%d: %s needs an object", k.file.path, n.line, name)
			}
			return func(f *kframe) kv { return f.vm.getProp(f.this, q) }, q.static()
		}
		if q := k.cls.sprops[name]; q != nil {
			c := k.cls
			return func(f *kframe) kv { return c.statics[q.idx] }, q.ty
		}
		if k.cls.kind == "enum" {
			for i, e := range k.cls.src.entries {
				if e.name == name {
					c := k.cls
					return func(f *kframe) kv { return kv{k: kObj, o: c.entries[i]} }, &kty{k: kObj, cls: c}
				}
			}
		}
	}
	// A lower-case name that is neither declared here nor something an object has by
	// itself can only be a mistake.
	if k.cls != nil && len(name) > 0 && name[0] >= 'a' && name[0] <= 'z' && !ktImplicit[name] && !k.imported(name) {
		rej("%s:%d: unresolved reference %s", k.file.path, n.line, name)
	}
	uns("%s: name %s in line %d", k.file.path, name, n.line)
	return nil, nil
}

var ktImplicit = map[string]bool{"javaClass": true, "size": true, "length": true, "indices": true, "lastIndex": true, "ordinal": true, "name": true, "entries": true, "values": true, "it": true, "field": true, "coroutineContext": true, "kotlin": true, "java": true, "javax": true, "com": true, "org": true}

// classRef resolves an expression that names a class.
func (k *kcomp) classRef(n *ktN) *kclass {
	switch n.k {
	case "name":
		if k.local(n.s) != nil || k.cls != nil && k.cls.propIdx[n.s] != nil && !k.static {
			return nil
		}
		return k.class(n.s)
	case "dot":
		if n.flag {
			return nil
		}
		if n.s == "Companion" {
			return k.classRef(n.kids[0])
		}
		// a.b.C
		s := n.s
		for x := n.kids[0]; ; x = x.kids[0] {
			s = x.s + "." + s
			if x.k == "name" {
				if k.local(x.s) != nil || k.cls != nil && k.cls.propIdx[x.s] != nil {
					return nil
				}
				return k.class(s)
			}
			if x.k != "dot" || x.flag {
				return nil
			}
		}
	}
	return nil
}

var kConsts = map[string]kv{
	"Double.POSITIVE_INFINITY": {k: kDouble, n: 0x7FF0000000000000}, "Double.NEGATIVE_INFINITY": {k: kDouble, n: 0xFFF0000000000000}, "Double.NaN": {k: kDouble, n: 0x7FF8000000000000},
	"Float.POSITIVE_INFINITY": {k: kFloat, n: 0x7F800000}, "Float.NEGATIVE_INFINITY": {k: kFloat, n: 0xFF800000}, "Float.NaN": {k: kFloat, n: 0x7FC00000},
	"Int.MAX_VALUE": {k: kInt, n: math.MaxInt32}, "Int.MIN_VALUE": {k: kInt, n: 0xffffffff80000000}, "Int.SIZE_BITS": {k: kInt, n: 32}, "Int.SIZE_BYTES": {k: kInt, n: 4},
	"Long.MAX_VALUE": {k: kLong, n: math.MaxInt64}, "Long.MIN_VALUE": {k: kLong, n: 1 << 63}, "Long.SIZE_BITS": {k: kInt, n: 64}, "Long.SIZE_BYTES": {k: kInt, n: 8},
	"ULong.MAX_VALUE": {k: kULong, n: math.MaxUint64}, "ULong.MIN_VALUE": {k: kULong}, "UInt.MAX_VALUE": {k: kUInt, n: math.MaxUint32}, "UInt.MIN_VALUE": {k: kUInt},
	"ULong.SIZE_BITS": {k: kInt, n: 64}, "UInt.SIZE_BITS": {k: kInt, n: 32}, "Byte.SIZE_BITS": {k: kInt, n: 8}, "Short.SIZE_BITS": {k: kInt, n: 16},
	"UByte.MAX_VALUE": {k: kUByte, n: 255}, "UShort.MAX_VALUE": {k: kUShort, n: 65535}, "Byte.MAX_VALUE": {k: kByte, n: 127}, "Short.MAX_VALUE": {k: kShort, n: 32767},
}

func (k *kcomp) dot(n *ktN) (kexpr, *kty) {
	line := n.line
	recv := n.kids[0]
	if recv.k == "name" && k.local(recv.s) == nil {
		if c, ok := kConsts[recv.s+"."+n.s]; ok && k.class(recv.s) == nil {
			return func(*kframe) kv { return c }, kTypes[c.k]
		}
	}
	if c := k.classRef(recv); c != nil {
		for i, e := range c.src.entries {
			if e.name == n.s {
				return func(*kframe) kv { return kv{k: kObj, o: c.entries[i]} }, &kty{k: kObj, cls: c}
			}
		}
		if q := c.sprops[n.s]; q != nil {
			if q.priv && c != k.cls {
				rej("%s:%d: %s of %s is private", k.file.path, line, n.s, c.name)
			}
			return func(*kframe) kv { return c.statics[q.idx] }, q.ty
		}
		if c.kind == "enum" && (n.s == "entries" || n.s == "values") {
			uns("%s of an enum", n.s)
		}
		rej("%s:%d: unresolved reference: %s of %s", k.file.path, line, n.s, c.name)
	}
	e, t := k.expr(recv)
	name, safe := n.s, n.flag
	if t != nil && t.null && !safe {
		rej("%s:%d: only ?. or !! are allowed on %s", k.file.path, line, t)
	}
	if t != nil && t.k == kObj && t.cls.propIdx[name] != nil {
		q := t.cls.propIdx[name]
		if q.priv && q.cls != k.cls {
			rej("%s:%d: %s of %s is private", k.file.path, line, name, q.cls.name)
		}
		rt := q.static()
		if safe && t.null && rt != nil {
			c := *rt
			c.null = true
			rt = &c
		}
		return func(f *kframe) kv {
			o := e(f)
			if o.k == kNull {
				if safe {
					return o
				}
				panic(ktThrow{"NullPointerException", name})
			}
			return f.vm.getProp(o.o.(*kobj), q)
		}, rt
	}
	var st *kty
	if t != nil && (t.k == kArr && (name == "size" || name == "lastIndex") || t.k == kString && name == "length") && !t.null {
		st = kTypes[kInt]
	}
	cls := k.cls
	return func(f *kframe) kv {
		o := e(f)
		switch o.k {
		case kNull:
			if safe {
				return o
			}
			panic(ktThrow{"NullPointerException", name})
		case kObj:
			x := o.o.(*kobj)
			q := x.cls.propIdx[name]
			if q == nil {
				if x.cls.kind == "enum" && name == "ordinal" {
					return kI(int64(x.ord))
				}
				if x.cls.kind == "enum" && name == "name" {
					return kS(x.entry)
				}
				rej("line %d: unresolved reference: %s of %s", line, name, x.cls.name)
			}
			if q.priv && q.cls != cls {
				rej("line %d: %s of %s is private", line, name, x.cls.name)
			}
			return f.vm.getProp(x, q)
		case kArr:
			a := o.o.(*karr)
			switch name {
			case "size":
				return kI(int64(a.size()))
			case "lastIndex":
				return kI(int64(a.size()) - 1)
			case "indices":
				return kv{k: kRange, o: &krange{0, int64(a.size()) - 1, 1}}
			}
		case kString:
			if name == "length" {
				return kI(int64(len(utf16.Encode([]rune(o.o.(string))))))
			}
		}
		uns("%s of %s in line %d", name, o.what(), line)
		return kv{}
	}, st
}

// callArgs orders the arguments of a call by the parameters.
func (k *kcomp) callArgs(fn *kfun, args []*ktN) func(f *kframe) []kv {
	type slot struct {
		i int
		e kexpr
	}
	var list []slot
	seen := map[int]bool{}
	for i, a := range args {
		e, _ := k.expr(a.kids[0])
		j := i
		if a.s != "" {
			j = -1
			for x, q := range fn.params {
				if q.name == a.s {
					j = x
				}
			}
			if j < 0 {
				rej("%s has no parameter %s", fn.name, a.s)
			}
		}
		if j >= len(fn.params) {
			rej("%s:%d: too many arguments for %s", k.file.path, a.line, fn.name)
		}
		if seen[j] {
			rej("an argument is passed twice to %s", fn.name)
		}
		seen[j] = true
		list = append(list, slot{j, e})
	}
	for i := range fn.params {
		if !seen[i] && fn.src.params[i].def == nil {
			rej("%s: no value for parameter %s of %s", k.file.path, fn.params[i].name, fn.name)
		}
	}
	n := len(fn.params)
	return func(f *kframe) []kv {
		out := make([]kv, n)
		for i := range out {
			out[i].k = kAny // absent
		}
		for _, s := range list {
			out[s.i] = s.e(f)
		}
		return out
	}
}

// pickFun chooses an overload by the number of arguments.
func (k *kcomp) pickFun(fs []*kfun, n, line int, what string) *kfun {
	var best *kfun
	for _, fn := range fs {
		req := 0
		for _, q := range fn.src.params {
			if q.def == nil {
				req++
			}
		}
		if n == len(fn.src.params) {
			best = fn
			break
		}
		if n >= req && n < len(fn.src.params) {
			if best != nil {
				uns("overloads of %s", what)
			}
			best = fn
		}
	}
	if best == nil {
		rej("%s:%d: no %s takes %d arguments", k.file.path, line, what, n)
	}
	if best.priv {
		if best.cls == nil && best.file != k.file || best.cls != nil && best.cls != k.cls {
			rej("%s:%d: %s is private", k.file.path, line, what)
		}
	}
	return best
}

func (k *kcomp) call(n *ktN) (kexpr, *kty) {
	callee, args := n.kids[0], n.kids[1:]
	line := n.line
	var targ *ktType
	if callee.k == "targs" {
		targ, callee = callee.ty, callee.kids[0]
	}
	plain := func() ([]kexpr, []*kty) {
		var out []kexpr
		var ts []*kty
		for _, a := range args {
			if a.s != "" {
				uns("named argument %s in line %d", a.s, line)
			}
			e, t := k.expr(a.kids[0])
			out = append(out, e)
			ts = append(ts, t)
		}
		return out, ts
	}
	static := func(fn *kfun) (kexpr, *kty) {
		as := k.callArgs(fn, args)
		return func(f *kframe) kv { return f.vm.call(fn, nil, as(f)) }, fn.ret
	}
	if callee.k == "name" {
		name := callee.s
		if k.local(name) != nil {
			uns("call of a value in line %d", line)
		}
		if k.cls != nil {
			if fs := k.cls.funs[name]; fs != nil {
				if k.static {
					rej("%s:%d: %s needs an object", k.file.path, line, name)
				}
				fn := k.pickFun(fs, len(args), line, name)
				as := k.callArgs(fn, args)
				return func(f *kframe) kv { return f.vm.call(fn, f.this, as(f)) }, fn.ret
			}
			if fs := k.cls.sfuns[name]; fs != nil {
				return static(k.pickFun(fs, len(args), line, name))
			}
		}
		if c := k.class(name); c != nil {
			es, _ := plain()
			return func(f *kframe) kv {
				var vs []kv
				for _, e := range es {
					vs = append(vs, e(f))
				}
				return kv{k: kObj, o: f.vm.construct(c, vs)}
			}, &kty{k: kObj, cls: c}
		}
		for _, pk := range k.visible() {
			if q := k.p.pkgs[pk]; q != nil && q.funs[name] != nil {
				return static(k.pickFun(q.funs[name], len(args), line, name))
			}
		}
		return k.builtin(n, name, targ, args, plain)
	}
	if callee.k != "dot" {
		uns("call in line %d", line)
	}
	name := callee.s
	recv := callee.kids[0]
	if recv.k == "name" && k.local(recv.s) == nil && k.class(recv.s) == nil {
		if b, ok := basicTypes[recv.s]; ok && name == "fromBits" {
			es, _ := plain()
			if len(es) != 1 {
				rej("fromBits takes one argument")
			}
			return func(f *kframe) kv {
				v := es[0](f)
				switch b {
				case kFloat:
					v = coerce(v, kTypes[kInt], "Float.fromBits")
					return kv{k: kFloat, n: v.n & 0xffffffff}
				case kDouble:
					v = coerce(v, kTypes[kLong], "Double.fromBits")
					return kv{k: kDouble, n: v.n}
				}
				rej("%s has no fromBits", recv.s)
				return kv{}
			}, kTypes[b]
		}
	}
	if c := k.classRef(recv); c != nil {
		if fs := c.sfuns[name]; fs != nil {
			return static(k.pickFun(fs, len(args), line, name))
		}
		if c.kind == "enum" && (name == "values" || name == "valueOf") {
			uns("%s of an enum", name)
		}
		rej("%s:%d: unresolved reference: %s of %s", k.file.path, line, name, c.name)
	}
	// a package before the class or function?
	if recv.k == "name" && k.local(recv.s) == nil && (k.cls == nil || k.cls.propIdx[recv.s] == nil && k.cls.sprops[recv.s] == nil) {
		enum := false
		if k.cls != nil && k.cls.kind == "enum" {
			for _, e := range k.cls.src.entries {
				enum = enum || e.name == recv.s
			}
		}
		if c := k.class(recv.s + "." + name); c != nil && !enum {
			uns("qualified constructor")
		}
	}
	e, t := k.expr(recv)
	safe := callee.flag
	nullable := map[string]bool{"hashCode": true, "toString": true, "equals": true, "contentEquals": true, "contentHashCode": true, "contentDeepEquals": true, "contentDeepHashCode": true}
	if t != nil && t.null && !safe && !nullable[name] {
		rej("%s:%d: only ?. or !! are allowed on %s", k.file.path, line, t)
	}
	if t != nil && t.k == kObj && t.cls.funs[name] != nil && !t.null {
		fn := k.pickFun(t.cls.funs[name], len(args), line, name)
		as := k.callArgs(fn, args)
		return func(f *kframe) kv {
			o := e(f)
			if o.k != kObj {
				panic(ktThrow{"NullPointerException", name})
			}
			return f.vm.call(fn, o.o.(*kobj), as(f))
		}, fn.ret
	}
	if t != nil && t.k == kObj && !nullable[name] {
		if t.cls.funs[name] == nil && k.method(name, line) == nil && name != "let" && name != "also" && name != "apply" && name != "run" && name != "takeIf" && name != "takeUnless" {
			rej("%s:%d: unresolved reference: %s of %s", k.file.path, line, name, t.cls.name)
		}
		uns("%s of %s in line %d", name, t, line)
	}
	for _, a := range args {
		if a.kids[0].k == "lambda" {
			uns("lambda for %s in line %d", name, line)
		}
	}
	// arguments of library functions may be named; put them where they belong
	es := make([]kexpr, 0, len(args))
	if len(args) > 0 {
		ord := map[string][]string{"copyInto": {"destination", "destinationOffset", "startIndex", "endIndex"}, "copyOfRange": {"fromIndex", "toIndex"}, "decodeToString": {"startIndex", "endIndex"}}[name]
		for i, a := range args {
			if a.s != "" && (i >= len(ord) || ord[i] != a.s) {
				uns("named argument %s in line %d", a.s, line)
			}
			x, _ := k.expr(a.kids[0])
			es = append(es, x)
		}
	}
	m := k.method(name, line)
	if m == nil {
		uns("%s in line %d", name, line)
	}
	var rt *kty
	if strings.HasPrefix(name, "to") && len(args) == 0 && !safe {
		if b, ok := basicTypes[name[2:]]; ok && b != kString {
			rt = kTypes[b]
		}
	}
	return func(f *kframe) kv {
		o := e(f)
		if o.k == kNull && safe {
			return o
		}
		if o.k == kNull && !nullable[name] {
			panic(ktThrow{"NullPointerException", name})
		}
		vs := make([]kv, len(es))
		for i, x := range es {
			vs[i] = x(f)
		}
		if o.k == kObj {
			if fs := o.o.(*kobj).cls.funs[name]; fs != nil {
				fn := k.pickFun(fs, len(vs), line, name)
				return f.vm.call(fn, o.o.(*kobj), vs)
			}
		}
		return m(f, o, vs)
	}, rt
}

func (k *kcomp) visible() []string {
	out := []string{k.file.pkg}
	for _, im := range k.file.imports {
		if i := strings.LastIndexByte(im, '.'); i > 0 {
			out = append(out, im[:i])
		}
	}
	return out
}

// builtin compiles calls of library functions.
func (k *kcomp) builtin(n *ktN, name string, targ *ktType, args []*ktN, plain func() ([]kexpr, []*kty)) (kexpr, *kty) {
	line := n.line
	lambdaArr := func(elem *kty) (kexpr, *kty) {
		t := &kty{k: kArr, elem: elem}
		cnt, _ := k.expr(args[0].kids[0])
		if len(args) == 1 {
			return func(f *kframe) kv {
				return kv{k: kArr, o: newArray(elem, int(int64(coerce(cnt(f), kTypes[kInt], name).n)))}
			}, t
		}
		l := args[1].kids[0]
		if l.k != "lambda" || len(args) != 2 {
			uns("%s in line %d", name, line)
		}
		k.push()
		in := l.s
		if in == "" {
			in = "it"
		}
		slot := k.declare(in, kTypes[kInt], false)
		body, bt := k.value(l.kids[0])
		k.pop()
		if elem.k == kAny {
			if bt == nil {
				uns("Array of an unknown type in line %d", line)
			}
			t.elem = bt
		}
		return func(f *kframe) kv {
			m := int(int64(coerce(cnt(f), kTypes[kInt], name).n))
			a := newArray(t.elem, m)
			for i := 0; i < m; i++ {
				f.s[slot] = kI(int64(i))
				a.set(i, body(f))
			}
			return kv{k: kArr, o: a}
		}, t
	}
	if b, ok := arrayTypes[name]; ok {
		if len(args) == 0 {
			rej("line %d: %s needs a size", line, name)
		}
		return lambdaArr(&kty{k: b})
	}
	if name == "Array" && len(args) == 2 {
		elem := &kty{k: kAny}
		if targ != nil {
			elem = k.typ(targ)
		}
		return lambdaArr(elem)
	}
	if name == "arrayOfNulls" && len(args) == 1 && targ != nil {
		e := *k.typ(targ)
		e.null = true
		return lambdaArr(&e)
	}
	if strings.HasSuffix(name, "ArrayOf") {
		if b, ok := arrayTypes[strings.ToUpper(name[:1])+strings.TrimSuffix(name[1:], "Of")]; ok || strings.HasPrefix(name, "u") {
			if !ok {
				b, ok = arrayTypes["U"+strings.ToUpper(name[1:2])+strings.TrimSuffix(name[2:], "Of")]
			}
			if ok {
				es, _ := plain()
				return func(f *kframe) kv {
					a := newArray(&kty{k: b}, len(es))
					for i, e := range es {
						a.set(i, e(f))
					}
					return kv{k: kArr, o: a}
				}, &kty{k: kArr, elem: &kty{k: b}}
			}
		}
	}
	switch name {
	case "maxOf", "minOf":
		es, ts := plain()
		if len(es) != 2 {
			uns("%s of %d", name, len(es))
		}
		var t *kty
		if ts[0] != nil && ts[1] != nil && ts[0].k == ts[1].k {
			t = ts[0]
		}
		return func(f *kframe) kv {
			a, b := es[0](f), es[1](f)
			if x, ok := adapt(a, b.k); ok {
				a = x
			} else if x, ok := adapt(b, a.k); ok {
				b = x
			} else {
				rej("line %d: %s of %s and %s", line, name, a.what(), b.what())
			}
			if a.k.floating() {
				uns("%s of floats", name)
			}
			if (compare(a, b) > 0) == (name == "maxOf") {
				return a
			}
			return b
		}, t
	case "run":
		if len(args) == 1 && args[0].kids[0].k == "lambda" {
			return k.value(args[0].kids[0].kids[0])
		}
	case "error", "TODO":
		return func(f *kframe) kv { panic(ktThrow{"IllegalStateException", ""}) }, nil
	case "require", "check":
		if len(args) >= 1 {
			c := k.cond(args[0].kids[0])
			ex := map[string]string{"require": "IllegalArgumentException", "check": "IllegalStateException"}[name]
			return func(f *kframe) kv {
				if !c(f) {
					panic(ktThrow{ex, ""})
				}
				return kv{}
			}, kTypes[kUnit]
		}
	}
	if k.known(name) {
		rej("%s:%d: unresolved reference: %s", k.file.path, line, name)
	}
	uns("%s: function %s in line %d", k.file.path, name, line)
	return nil, nil
}

var kConv = map[string]kk{"toByte": kByte, "toShort": kShort, "toInt": kInt, "toLong": kLong, "toUByte": kUByte, "toUShort": kUShort, "toUInt": kUInt, "toULong": kULong, "toFloat": kFloat, "toDouble": kDouble}

// imported tells whether a name could come from an import or begin a qualified one.
func (k *kcomp) imported(name string) bool {
	for _, im := range k.file.imports {
		if strings.HasSuffix(im, "."+name) || strings.HasSuffix(im, ".*") && k.p.pkgs[strings.TrimSuffix(im, ".*")] == nil {
			return true
		}
	}
	for q := range k.p.pkgs {
		if q == name || strings.HasPrefix(q, name+".") {
			return true
		}
	}
	return false
}

func (k *kcomp) imports(name string) bool {
	i := strings.LastIndexByte(name, '.')
	return contains(k.file.imports, name) || contains(k.file.imports, name[:i]+".*")
}

// method gives a member or extension of the standard library.
func (k *kcomp) method(name string, line int) func(f *kframe, o kv, a []kv) kv {
	need := func(a []kv, lo, hi int) {
		if len(a) < lo || len(a) > hi {
			rej("line %d: %s takes other arguments", line, name)
		}
	}
	intArg := func(v kv) int64 { return int64(coerce(v, kTypes[kInt], "argument of "+name).n) }
	arr := func(v kv) *karr {
		if v.k != kArr {
			uns("%s of %s in line %d", name, v.what(), line)
		}
		return v.o.(*karr)
	}
	bytesOf := func(v kv) *karr {
		x := arr(v)
		if x.elem.k != kByte {
			uns("%s of %s in line %d", name, v.what(), line)
		}
		return x
	}
	span := func(x *karr, a []kv, i int) (int, int) {
		from, to := int64(0), int64(x.size())
		if len(a) > i {
			from = intArg(a[i])
		}
		if len(a) > i+1 {
			to = intArg(a[i+1])
		}
		if from > to {
			panic(ktThrow{"IllegalArgumentException", fmt.Sprintf("%d > %d", from, to)})
		}
		if from < 0 || to > int64(x.size()) {
			panic(ktThrow{"IndexOutOfBoundsException", fmt.Sprintf("%d..%d of %d", from, to, x.size())})
		}
		return int(from), int(to)
	}
	if to, ok := kConv[name]; ok {
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 0, 0)
			if o.k == kBool || o.k == kObj || o.k == kArr {
				rej("line %d: %s has no %s", line, o.what(), name)
			}
			if o.k == kString {
				uns("%s of String", name)
			}
			if o.k == kULong && to == kLong || o.k == kLong && to == kULong {
				return kv{k: to, n: o.n}
			}
			return convert(o, to, name)
		}
	}
	switch name {
	case "and", "or", "xor":
		exp := k.imports("kotlin.experimental." + name)
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 1, 1)
			b := a[0]
			if b.k != o.k {
				if x, ok := adapt(b, o.k); ok {
					b = x
				} else {
					rej("line %d: %s %s %s", line, o.what(), name, b.what())
				}
			}
			switch {
			case o.k == kInt, o.k == kLong, o.k.unsigned(), o.k == kBool:
			case o.k == kByte, o.k == kShort:
				if !exp {
					rej("line %d: %s has no %s", line, o.what(), name)
				}
			default:
				rej("line %d: %s has no %s", line, o.what(), name)
			}
			r := kv{k: o.k, lit: o.lit && a[0].lit}
			switch name {
			case "and":
				r.n = o.n & b.n
			case "or":
				r.n = o.n | b.n
			default:
				r.n = o.n ^ b.n
			}
			return r
		}
	case "shl", "shr", "ushr":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 1, 1)
			by := a[0]
			if x, ok := adapt(by, kInt); ok {
				by = x
			} else {
				rej("line %d: %s by %s", line, name, by.what())
			}
			if o.k != kInt && o.k != kLong && o.k != kUInt && o.k != kULong || name == "ushr" && o.k.unsigned() {
				rej("line %d: %s has no %s", line, o.what(), name)
			}
			w := kkBits[o.k]
			s := uint(by.n) & uint(w-1)
			r := kv{k: o.k}
			switch {
			case name == "shl":
				r.n = o.n << s
			case o.k.unsigned():
				r.n = o.n >> s
			case name == "shr":
				r.n = uint64(int64(o.n) >> s)
			case o.k == kInt:
				r.n = uint64(uint32(o.n) >> s)
			default:
				r.n = o.n >> s
			}
			r.n = wrapInt(r.k, r.n)
			return r
		}
	case "inv":
		exp := k.imports("kotlin.experimental.inv")
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 0, 0)
			if !o.k.integer() || (o.k == kByte || o.k == kShort) && !exp {
				rej("line %d: %s has no inv", line, o.what())
			}
			return kv{k: o.k, n: wrapInt(o.k, ^o.n)}
		}
	case "until":
		return func(f *kframe, o kv, a []kv) kv { need(a, 1, 1); return mkRange(o, a[0], true) }
	case "downTo":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 1, 1)
			r := mkRange(o, a[0], false)
			r.o.(*krange).step = -1
			return r
		}
	case "step":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 1, 1)
			if o.k != kRange {
				rej("line %d: step of %s", line, o.what())
			}
			x := *o.o.(*krange)
			s := intArg(a[0])
			if s <= 0 {
				panic(ktThrow{"IllegalArgumentException", "step"})
			}
			x.step *= s
			// the last element a progression reaches
			if x.step > 0 && x.to >= x.from {
				x.to -= (x.to - x.from) % x.step
			} else if x.step < 0 && x.from >= x.to {
				x.to += (x.from - x.to) % -x.step
			}
			return kv{k: kRange, n: o.n, o: &x}
		}
	case "toRawBits", "toBits":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 0, 0)
			n := o.n
			switch o.k {
			case kFloat:
				if name == "toBits" {
					n = canon32(n)
				}
				return kv{k: kInt, n: wrapInt(kInt, n)}
			case kDouble:
				if name == "toBits" {
					n = canon64(n)
				}
				return kv{k: kLong, n: n}
			}
			rej("line %d: %s has no %s", line, o.what(), name)
			return kv{}
		}
	case "pow":
		imp := k.imports("kotlin.math.pow")
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 1, 1)
			if !imp || !o.k.floating() {
				rej("line %d: %s has no pow", line, o.what())
			}
			if a[0].k == kInt {
				return mkFloat(o.k, math.Pow(o.f(), a[0].f()))
			}
			if a[0].k != o.k {
				rej("line %d: pow of %s and %s", line, o.what(), a[0].what())
			}
			return mkFloat(o.k, math.Pow(o.f(), a[0].f()))
		}
	case "countOneBits", "countLeadingZeroBits", "countTrailingZeroBits":
		return func(f *kframe, o kv, a []kv) kv {
			w := kkBits[o.k]
			if !o.k.integer() {
				rej("line %d: %s has no %s", line, o.what(), name)
			}
			n := o.n & maskN(w)
			switch name {
			case "countOneBits":
				return kI(int64(bits.OnesCount64(n)))
			case "countLeadingZeroBits":
				return kI(int64(bits.LeadingZeros64(n) - (64 - w)))
			}
			if n == 0 {
				return kI(int64(w))
			}
			return kI(int64(bits.TrailingZeros64(n)))
		}
	case "coerceAtLeast", "coerceAtMost":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 1, 1)
			b := coerce(a[0], kTypes[o.k], name)
			if (compare(o, b) < 0) == (name == "coerceAtLeast") {
				return b
			}
			o.lit = false
			return o
		}
	case "encodeToByteArray":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 0, 0)
			if o.k != kString {
				rej("line %d: %s has no %s", line, o.what(), name)
			}
			return kBytes([]byte(o.o.(string)))
		}
	case "decodeToString":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 0, 2)
			x := bytesOf(o)
			from, to := span(x, a, 0)
			b := x.b[from:to]
			if !utf8.Valid(b) {
				return kS(strings.ToValidUTF8(string(b), "\uFFFD"))
			}
			return kS(string(b))
		}
	case "copyOf":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 0, 0)
			x := arr(o)
			return kv{k: kArr, o: &karr{elem: x.elem, b: bytes.Clone(x.b), v: append([]kv(nil), x.v...)}}
		}
	case "copyOfRange":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 2, 2)
			x := arr(o)
			from, to := span(x, a, 0)
			y := &karr{elem: x.elem}
			if x.elem.k == kByte {
				y.b = append([]byte{}, x.b[from:to]...)
			} else {
				y.v = append([]kv{}, x.v[from:to]...)
			}
			return kv{k: kArr, o: y}
		}
	case "copyInto":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 1, 4)
			x, d := arr(o), arr(a[0])
			if x.elem.k != d.elem.k {
				rej("line %d: copyInto of another type", line)
			}
			at := int64(0)
			if len(a) > 1 {
				at = intArg(a[1])
			}
			from, to := span(x, a, 2)
			if at < 0 || at+int64(to-from) > int64(d.size()) {
				panic(ktThrow{"IndexOutOfBoundsException", fmt.Sprintf("copyInto at %d of %d", at, d.size())})
			}
			if x.elem.k == kByte {
				copy(d.b[at:], x.b[from:to])
			} else {
				copy(d.v[at:], x.v[from:to])
			}
			return a[0]
		}
	case "fill":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 1, 3)
			x := arr(o)
			from, to := span(x, a, 1)
			for i := from; i < to; i++ {
				x.set(i, a[0])
			}
			return kv{}
		}
	case "contentEquals", "contentDeepEquals":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 1, 1)
			if o.k == kNull || a[0].k == kNull {
				return kB(o.k == a[0].k)
			}
			return kB(f.vm.contentEquals(arr(o), arr(a[0]), name == "contentDeepEquals"))
		}
	case "contentHashCode", "contentDeepHashCode":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 0, 0)
			if o.k == kNull {
				return kI(0)
			}
			return kI(int64(f.vm.contentHash(arr(o), name == "contentDeepHashCode")))
		}
	case "hashCode":
		return func(f *kframe, o kv, a []kv) kv { need(a, 0, 0); return kI(int64(f.vm.hash(o))) }
	case "equals":
		return func(f *kframe, o kv, a []kv) kv { need(a, 1, 1); return kB(f.vm.boxedEquals(o, a[0])) }
	case "toString":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 0, 0)
			if o.k.floating() || o.k == kObj || o.k == kArr {
				uns("toString of %s", o.what())
			}
			return kS(kstr(o))
		}
	case "isEmpty", "isNotEmpty":
		return func(f *kframe, o kv, a []kv) kv {
			need(a, 0, 0)
			n := 0
			if o.k == kString {
				n = len(o.o.(string))
			} else {
				n = arr(o).size()
			}
			return kB((n == 0) == (name == "isEmpty"))
		}
	case "not":
		return func(f *kframe, o kv, a []kv) kv {
			if o.k != kBool {
				rej("line %d: %s has no not", line, o.what())
			}
			return kB(o.n == 0)
		}
	}
	return nil
}
