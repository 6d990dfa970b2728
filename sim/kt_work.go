package main

import (
	"encoding/hex"
	"fmt"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// ktWorker hosts generated Kotlin like a worker process hosts the other targets' code; it
// lives inside the simulator.
type ktWorker struct {
	p     *Pool
	vm    *kvm
	slots [64]*ktSlot
	bufs  [64]kv
}

type ktSlot struct {
	o  *kobj
	t  *typ
	kp *ktProg
}

func (p *Pool) ktPkgDir(v *Variant, u *Universe) string {
	return filepath.Join(p.Dir, "kt", v.Name, fmt.Sprintf("u%d", u.ID))
}

// buildKt reads the generated Kotlin. Pairs the interpreter cannot read are left out.
func (p *Pool) buildKt() error {
	p.Kt = map[int]*ktProg{}
	return p.each("kt", func(v *Variant, vi int, u *Universe, ui int) error {
		dir := p.ktPkgDir(v, u)
		files := map[string]string{}
		err := filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() && strings.HasSuffix(path, ".kt") {
				b, e := os.ReadFile(path)
				rel, _ := filepath.Rel(p.Dir, path)
				files[rel] = string(b)
				return e
			}
			return err
		})
		if err != nil {
			return err
		}
		kp, err := ktLoad(files)
		switch e := err.(type) {
		case nil:
			p.Kt[tidOf(vi, ui, 0)] = kp
			for si, s := range u.Structs {
				if kp.class(u, v, s.Name) == nil {
					return &genError{fmt.Sprintf("generated Kotlin has no class %s.%s", u.ktPkg(v.Name, s.File), s.Name), ""}
				}
				_ = si
			}
		case ktUnsup:
			p.note(e.Error())
			for si := range u.Structs {
				delete(p.Types, tidOf(vi, ui, si))
			}
		default:
			return &genError{"generated Kotlin does not compile: " + err.Error(), ""}
		}
		return nil
	})
}

func (p *Pool) note(s string) {
	p.noteMu.Lock()
	defer p.noteMu.Unlock()
	if p.notes == nil {
		p.notes = map[string]int{}
	}
	s = trunc(s, 200)
	if p.notes[s]++; p.notes[s] == 1 && os.Getenv("SIM_NOTES") != "" {
		fmt.Fprintln(os.Stderr, "note:", s)
	}
}

func (kp *ktProg) class(u *Universe, v *Variant, name string) *kclass {
	if q := kp.pkgs[u.ktPkg(v.Name, u.fileOf(name))]; q != nil {
		return q.types[name]
	}
	return nil
}

func (u *Universe) ktPkg(variant string, i int) string { return u.javaPkg(variant, i) }

func (w *ktWorker) do(line string) (out string, err error) {
	w.vm.steps, w.vm.depth = 0, 0
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case ktThrow:
				out = "ex " + e.name
			case ktHang:
				err = &replyErr{"hang", "no answer within the bound on steps"}
			case ktReject:
				err = &replyErr{"uncompilable", e.Error()}
			case ktUnsup:
				err = e
			default:
				panic(r)
			}
		}
	}()
	return w.op(&ktTokens{strings.Split(line, " "), 0}), nil
}

type ktTokens struct {
	f []string
	i int
}

func (t *ktTokens) next() string { t.i++; return t.f[t.i-1] }
func (t *ktTokens) u() uint64    { v, _ := strconv.ParseUint(t.next(), 10, 64); return v }
func (t *ktTokens) n() int       { return int(t.u()) }
func (t *ktTokens) bytes() []byte {
	b, _ := hex.DecodeString(t.next()[1:])
	return b
}

// scalar reads a value of a kind as the type the API has for it.
func (t *ktTokens) scalar(k Kind) kv {
	x := t.next()
	switch {
	case k == KString:
		b, _ := hex.DecodeString(x[1:])
		return kS(string(b))
	case k == KBytes:
		b, _ := hex.DecodeString(x[1:])
		return kBytes(b)
	case k == KBool:
		return kB(x != "0")
	case k == KF32:
		n, _ := strconv.ParseUint(x, 16, 32)
		return kv{k: kFloat, n: n}
	case k == KF64:
		n, _ := strconv.ParseUint(x, 16, 64)
		return kv{k: kDouble, n: n}
	case k.Signed():
		n, _ := strconv.ParseInt(x, 10, 64)
		return kv{k: ktKind[k], n: uint64(n)}
	}
	n, _ := strconv.ParseUint(x, 10, 64)
	return kv{k: ktKind[k], n: n}
}

var ktKind = []kk{kBool, kUByte, kUShort, kUInt, kULong, kByte, kShort, kInt, kLong, kFloat, kDouble}

func ktToken(k Kind, v kv) string {
	if v.k == kNull {
		return "null"
	}
	switch {
	case k == KString:
		v = coerce(v, kTypes[kString], "string")
		return "x" + hex.EncodeToString([]byte(v.o.(string)))
	case k == KBytes:
		v = coerce(v, &kty{k: kArr, elem: &kty{k: kByte}}, "bytes")
		return "x" + hex.EncodeToString(v.o.(*karr).b)
	}
	v = coerce(v, kTypes[ktKind[k]], kindName[k])
	switch {
	case k == KF32:
		if x := math.Float32frombits(uint32(v.n)); x != x {
			return "nan"
		}
		return strconv.FormatUint(v.n, 16)
	case k == KF64:
		if x := math.Float64frombits(v.n); x != x {
			return "nan"
		}
		return strconv.FormatUint(v.n, 16)
	case k.Signed():
		return strconv.FormatInt(int64(v.n), 10)
	}
	return strconv.FormatUint(v.n, 10)
}

// prop finds a property as code outside of the class may use it.
func ktPropOf(c *kclass, name string, write bool) *kprop {
	q := c.propIdx[name]
	switch {
	case q == nil:
		rej("unresolved reference: %s of %s", name, c.name)
	case q.priv || write && q.privSet:
		rej("%s of %s is private", name, c.name)
	case write && !q.mut:
		rej("%s of %s is val", name, c.name)
	}
	return q
}

func (w *ktWorker) get(o *kobj, name string) kv {
	return w.vm.getProp(o, ktPropOf(o.cls, name, false))
}

// method calls a public method of an object (or of the class when o is nil).
func (w *ktWorker) method(c *kclass, o *kobj, name string, args ...kv) kv {
	m := c.funs
	if o == nil {
		m = c.sfuns
	}
	if m[name] == nil {
		rej("unresolved reference: %s of %s", name, c.name)
	}
	k := &kcomp{file: &ktFile{path: "caller"}}
	fn := k.pickFun(m[name], len(args), 0, name)
	full := make([]kv, len(fn.params))
	for i := range full {
		full[i].k = kAny
	}
	copy(full, args)
	return w.vm.call(fn, o, full)
}

func (w *ktWorker) enum(s *ktSlot, ref string, n uint64) kv {
	c := s.kp.class(s.t.U, s.t.V, ref)
	return w.method(c, nil, "fromNumber", kv{k: kLong, n: n})
}

func (w *ktWorker) fill(s *ktSlot, o *kobj, st *Struct, t *ktTokens, fresh bool) {
	u := s.t.U
	for _, f := range u.normals(st) {
		name := camel(f.Name)
		one := func(old func() kv) kv {
			switch f.K {
			case KStruct:
				v := kv{}
				if fresh {
					v = kv{k: kObj, o: w.vm.construct(s.kp.class(u, s.t.V, f.Ref), nil)}
				} else {
					v = old()
				}
				if v.k != kObj {
					panic(ktThrow{"NullPointerException", name})
				}
				w.fill(s, v.o.(*kobj), u.strct(f.Ref), t, fresh)
				return v
			case KEnum:
				return w.enum(s, f.Ref, t.u())
			}
			return t.scalar(f.K)
		}
		if f.Len > 0 {
			q := ktPropOf(o.cls, name, fresh)
			a := w.vm.getProp(o, q)
			if a.k != kArr {
				rej("%s is no array", name)
			}
			x := a.o.(*karr)
			if fresh {
				x = newArray(x.elem, f.Len)
			}
			for i := 0; i < f.Len; i++ {
				x.set(bound(int64(i), x.size()), one(func() kv { return x.at(bound(int64(i), x.size())) }))
			}
			if fresh {
				w.vm.setProp(o, q, kv{k: kArr, o: x})
			}
			continue
		}
		if f.K == KStruct && !fresh {
			one(func() kv { return w.get(o, name) })
			continue
		}
		w.vm.setProp(o, ktPropOf(o.cls, name, true), one(nil))
	}
}

func (w *ktWorker) dump(s *ktSlot, o *kobj, st *Struct, b *strings.Builder) {
	u := s.t.U
	for _, f := range u.normals(st) {
		v := w.get(o, camel(f.Name))
		one := func(v kv) {
			if f.K == KStruct && v.k == kObj {
				w.dump(s, v.o.(*kobj), u.strct(f.Ref), b)
				return
			}
			b.WriteByte(' ')
			switch {
			case v.k == kNull:
				b.WriteString("null")
			case f.K == KEnum:
				if v.k != kObj {
					rej("%s is no enum", f.Name)
				}
				n := coerce(w.get(v.o.(*kobj), "number"), kTypes[kLong], "number")
				b.WriteString(strconv.FormatUint(n.n, 10))
			case f.K == KStruct:
				rej("%s is no object", f.Name)
			default:
				b.WriteString(ktToken(f.K, v))
			}
		}
		if f.Len > 0 {
			if v.k != kArr {
				rej("%s is no array", f.Name)
			}
			x := v.o.(*karr)
			for i := 0; i < f.Len; i++ {
				one(x.at(bound(int64(i), x.size())))
			}
			continue
		}
		one(v)
	}
}

func ktNum(v kv) string {
	return "ok " + strconv.FormatInt(int64(coerce(v, kTypes[kInt], "result").n), 10)
}

func (w *ktWorker) node(id int) *ktSlot {
	t := w.p.Types[id]
	if t == nil {
		panic(ktUnsup{"a type that could not be read"})
	}
	kp := w.p.Kt[tidOf(t.VI, t.UI, 0)]
	c := kp.class(t.U, t.V, t.S.Name)
	return &ktSlot{w.vm.construct(c, nil), t, kp}
}

func (w *ktWorker) op(t *ktTokens) string {
	call := func(s *ktSlot, name string, b, off, api int) kv {
		if api == 1 && off == 0 {
			return w.method(s.o.cls, s.o, name, w.bufs[b])
		}
		return w.method(s.o.cls, s.o, name, w.bufs[b], kI(int64(off)))
	}
	op := t.next()
	switch op {
	case "T":
		return w.together(t)
	case "B":
		b := t.n()
		w.bufs[b] = kv{k: kNull}
		if strings.HasPrefix(t.f[t.i], "x") {
			w.bufs[b] = kBytes(t.bytes())
		}
		return "ok"
	case "M":
		b, off := t.n(), t.n()
		copy(w.bufs[b].o.(*karr).b[off:], t.bytes())
		return "ok"
	case "R":
		return "ok x" + hex.EncodeToString(w.bufs[t.n()].o.(*karr).b)
	case "Z":
		s := w.node(t.n())
		b, off, api := t.n(), t.n(), t.n()
		return ktNum(call(s, "decodeSize", b, off, api))
	}
	i := t.n()
	if op == "N" {
		w.slots[i] = w.node(t.n())
		return "ok"
	}
	s := w.slots[i]
	if op == "Y" {
		c := *s
		o := *s.o
		o.f = append([]kv{}, s.o.f...)
		c.o = &o
		w.slots[t.n()] = &c
		return "ok"
	}
	var b strings.Builder
	b.WriteString("ok")
	switch op {
	case "F", "X":
		w.fill(s, s.o, s.t.S, t, op == "X")
		return "ok"
	case "P", "G":
		w.dump(s, s.o, s.t.S, &b)
		return b.String()
	case "I":
		b.WriteString(" " + ktToken(KBool, w.method(s.o.cls, nil, "dynamic")))
		b.WriteString(" " + ktToken(KI32, w.method(s.o.cls, nil, "size")))
		return b.String()
	case "S":
		return ktNum(w.method(s.o.cls, s.o, "encodeSize"))
	case "E":
		buf, off := t.n(), t.n()
		if off == 0 && len(w.bufs[buf].o.(*karr).b)%2 == 0 {
			return ktNum(w.method(s.o.cls, s.o, "encode", w.bufs[buf]))
		}
		return ktNum(w.method(s.o.cls, s.o, "encode", w.bufs[buf], kI(int64(off))))
	case "A":
		buf := t.n()
		v := coerce(w.method(s.o.cls, s.o, "encode"), &kty{k: kArr, elem: &kty{k: kByte}}, "encode")
		w.bufs[buf] = v
		return fmt.Sprintf("ok %d", len(v.o.(*karr).b))
	case "D":
		buf, off, api := t.n(), t.n(), t.n()
		return ktNum(call(s, "decode", buf, off, api))
	case "U":
		as := s.t.U.accs(s.t.S)
		for t.i < len(t.f) {
			a := as[t.n()]
			b.WriteString(" " + ktToken(a.A.T, w.get(s.o, camel(a.A.Name))))
		}
		return b.String()
	case "V":
		a := s.t.U.accs(s.t.S)[t.n()]
		w.vm.setProp(s.o, ktPropOf(s.o.cls, camel(a.A.Name), true), t.scalar(a.A.T))
		return "ok"
	case "W":
		for _, f := range s.t.U.consts(s.t.S) {
			b.WriteString(" " + ktToken(f.K, w.get(s.o, camel(f.Name))))
		}
		return b.String()
	case "Q":
		o := w.slots[t.n()]
		x, y := kv{k: kObj, o: s.o}, kv{k: kObj, o: o.o}
		flag := func(b bool) string {
			if b {
				return "1"
			}
			return "0"
		}
		return "ok " + flag(w.vm.objEquals(x, y)) + flag(w.vm.objEquals(y, x)) + flag(w.vm.hash(x) == w.vm.hash(y))
	}
	return "ex badop"
}
