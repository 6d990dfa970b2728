package main

import (
	"fmt"
)

var goType = []string{"bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"}

// goGlue is one package per (variant, universe), so that compile work spreads.
func goGlue(u *Universe, v *Variant, vi, ui int) string {
	b := &src{}
	b.p("package glue%d_%d", vi, ui)
	b.p("import (")
	b.p("  . \"simmod/rt\"")
	root := len(u.Files) - 1
	if v.Single {
		b.p("  m%d \"simmod/%s\"", root, u.goPkg(v.Name, root))
	} else {
		used := map[int]bool{}
		for _, s := range u.Structs {
			used[s.File] = true
			for _, f := range u.normals(s) {
				if f.Ref != "" {
					used[u.fileOf(f.Ref)] = true
				}
			}
		}
		for i := range u.Files {
			if used[i] {
				b.p("  m%d \"simmod/%s\"", i, u.goPkg(v.Name, i))
			}
		}
	}
	b.p(")")
	ty := func(n string) string {
		if v.Single {
			return fmt.Sprintf("m%d.%s", root, n)
		}
		return fmt.Sprintf("m%d.%s", u.fileOf(n), n)
	}
	for _, acc := range []bool{false, true} {
		if acc && v.Minimal {
			continue
		}
		sfx := ""
		if acc {
			sfx = "A"
		}
		for _, s := range u.Structs {
			b.p("func fill%s_%s(o *%s, t *Tok) {", sfx, s.Name, ty(s.Name))
			for _, f := range u.normals(s) {
				F := pascal(f.Name)
				get := func() string {
					switch f.K {
					case KString:
						return "t.Str()"
					case KBytes:
						return "t.Bytes()"
					case KEnum:
						return fmt.Sprintf("%s(t.U())", ty(f.Ref))
					case KF32:
						return "t.F32()"
					case KF64:
						return "t.F64()"
					case KBool:
						return "t.U() != 0"
					}
					if f.K.Signed() {
						return fmt.Sprintf("%s(t.I())", goType[f.K])
					}
					return fmt.Sprintf("%s(t.U())", goType[f.K])
				}
				if acc {
					b.p("  { x := o.Get%s()", F)
					lv := "x"
					if f.Len > 0 {
						b.p("  for i := range x {")
						lv = "x[i]"
					}
					if f.K == KStruct {
						b.p("    fillA_%s(&%s, t)", f.Ref, lv)
					} else {
						b.p("    %s = %s", lv, get())
					}
					if f.Len > 0 {
						b.p("  }")
					}
					b.p("  o.Set%s(x) }", F)
					continue
				}
				for i := 0; i < f.count(); i++ {
					lv := "o." + F
					if f.Len > 0 {
						lv += fmt.Sprintf("[%d]", i)
					}
					if f.K == KStruct {
						b.p("  fill_%s(&%s, t)", f.Ref, lv)
					} else {
						b.p("  %s = %s", lv, get())
					}
				}
			}
			b.p("}")
			b.p("func dump%s_%s(o *%s, w *Out) {", sfx, s.Name, ty(s.Name))
			for _, f := range u.normals(s) {
				F := pascal(f.Name)
				e := "o." + F
				if acc {
					b.p("  { x := o.Get%s()", F)
					e = "x"
				}
				for i := 0; i < f.count(); i++ {
					x := e
					if f.Len > 0 {
						x += fmt.Sprintf("[%d]", i)
					}
					switch {
					case f.K == KStruct:
						b.p("  dump%s_%s(&%s, w)", sfx, f.Ref, x)
					case f.K == KString:
						b.p("  w.Bytes([]byte(%s))", x)
					case f.K == KBytes:
						b.p("  w.Bytes(%s)", x)
					case f.K == KF32:
						b.p("  w.F32(%s)", x)
					case f.K == KF64:
						b.p("  w.F64(%s)", x)
					case f.K == KBool:
						b.p("  w.Bool(%s)", x)
					case f.K.Signed():
						b.p("  w.I(int64(%s))", x)
					default:
						b.p("  w.U(uint64(%s))", x)
					}
				}
				if acc {
					b.p("  }")
				}
			}
			b.p("}")
		}
	}
	for _, s := range u.Structs {
		n := s.Name
		b.p("type n_%s struct{ %s }", n, ty(n))
		b.p("func (n *n_%s) VFill(t *Tok) { fill_%s(&n.%s, t) }", n, n, n)
		b.p("func (n *n_%s) VDump(w *Out) { dump_%s(&n.%s, w) }", n, n, n)
		if v.Minimal {
			b.p("func (n *n_%s) VFillA(t *Tok) {}\nfunc (n *n_%s) VDumpA(w *Out) {}", n, n)
		} else {
			b.p("func (n *n_%s) VFillA(t *Tok) { fillA_%s(&n.%s, t) }", n, n, n)
			b.p("func (n *n_%s) VDumpA(w *Out) { dumpA_%s(&n.%s, w) }", n, n, n)
		}
		b.p("func (n *n_%s) VAccGet(k int, w *Out) { switch k {", n)
		for k, a := range u.accs(s) {
			if a.A.Get == nil {
				continue
			}
			e := fmt.Sprintf("n.%s.Get%s()", n, pascal(a.A.Name))
			b.p("case %d:", k)
			switch t := a.A.T; {
			case t == KF32:
				b.p("  w.F32(%s)", e)
			case t == KF64:
				b.p("  w.F64(%s)", e)
			case t == KBool:
				b.p("  w.Bool(%s)", e)
			case t.Signed():
				b.p("  w.I(int64(%s))", e)
			default:
				b.p("  w.U(uint64(%s))", e)
			}
		}
		b.p("} }")
		b.p("func (n *n_%s) VAccSet(k int, t *Tok) { switch k {", n)
		for k, a := range u.accs(s) {
			if a.A.Set == nil {
				continue
			}
			e := fmt.Sprintf("n.%s.Set%s", n, pascal(a.A.Name))
			b.p("case %d:", k)
			switch t := a.A.T; {
			case t == KF32:
				b.p("  %s(t.F32())", e)
			case t == KF64:
				b.p("  %s(t.F64())", e)
			case t == KBool:
				b.p("  %s(t.U() != 0)", e)
			case t.Signed():
				b.p("  %s(%s(t.I()))", e, goType[t])
			default:
				b.p("  %s(%s(t.U()))", e, goType[t])
			}
		}
		b.p("} }")
	}
	b.p("func init() {")
	for si, s := range u.Structs {
		b.p("  Types[%d] = func() Node { return new(n_%s) }", tidOf(vi, ui, si), s.Name)
	}
	b.p("}")
	return b.String()
}

const goRT = `package rt

import (
	"encoding/hex"
	"math"
	"strconv"
	"strings"
)

type Node interface {
	VFill(*Tok); VDump(*Out); VFillA(*Tok); VDumpA(*Out); VAccGet(int, *Out); VAccSet(int, *Tok)
	EncodeSize() int
	Dynamic() bool
	Size() uint64
	Encode() []byte
	EncodeTo([]byte) int
	DecodeSize([]byte) int
	Decode([]byte) int
}

var Types = map[int]func() Node{}

type Tok struct{ F []string }

func (t *Tok) Next() string { s := t.F[0]; t.F = t.F[1:]; return s }
func (t *Tok) U() uint64 { v, err := strconv.ParseUint(t.Next(), 10, 64); if err != nil { panic(err) }; return v }
func (t *Tok) I() int64 { v, err := strconv.ParseInt(t.Next(), 10, 64); if err != nil { panic(err) }; return v }
func (t *Tok) F32() float32 { v, _ := strconv.ParseUint(t.Next(), 16, 32); return math.Float32frombits(uint32(v)) }
func (t *Tok) F64() float64 { v, _ := strconv.ParseUint(t.Next(), 16, 64); return math.Float64frombits(v) }
func (t *Tok) Bytes() []byte { b, err := hex.DecodeString(t.Next()[1:]); if err != nil { panic(err) }; return b }
func (t *Tok) Str() string { return string(t.Bytes()) }

type Out struct{ strings.Builder }

func (w *Out) U(v uint64) { w.WriteByte(' '); w.WriteString(strconv.FormatUint(v, 10)) }
func (w *Out) I(v int64) { w.WriteByte(' '); w.WriteString(strconv.FormatInt(v, 10)) }
func (w *Out) Bool(v bool) { if v { w.U(1) } else { w.U(0) } }
func (w *Out) F32(v float32) { if v != v { w.WriteString(" nan") } else { w.WriteByte(' '); w.WriteString(strconv.FormatUint(uint64(math.Float32bits(v)), 16)) } }
func (w *Out) F64(v float64) { if v != v { w.WriteString(" nan") } else { w.WriteByte(' '); w.WriteString(strconv.FormatUint(math.Float64bits(v), 16)) } }
func (w *Out) Bytes(b []byte) { w.WriteString(" x"); w.WriteString(hex.EncodeToString(b)) }
`

const goMain = `package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"reflect"
	"strings"

	. "simmod/rt"
IMPORTS)

var slots [64]Node
var bufs [64][]byte

func do(t *Tok) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = "ex " + strings.ReplaceAll(fmt.Sprint(e), "\n", " ")
		}
	}()
	op := t.Next()
	switch op {
	case "B":
		b := t.U()
		h := t.Next()
		bufs[b] = nil
		if h[0] == 'x' {
			x, _ := hex.DecodeString(h[1:])
			bufs[b] = make([]byte, len(x))
			copy(bufs[b], x)
		}
		return "ok"
	case "M":
		b := t.U()
		off := t.U()
		copy(bufs[b][off:], t.Bytes())
		return "ok"
	case "R":
		return "ok x" + hex.EncodeToString(bufs[t.U()])
	case "T":
		return Run(t, func(op string, a, b, off int) int {
			switch op {
			case "E":
				return slots[a].EncodeTo(bufs[b][off:len(bufs[b]):len(bufs[b])])
			case "D":
				return slots[a].Decode(bufs[b][off:len(bufs[b]):len(bufs[b])])
			case "S":
				return slots[a].EncodeSize()
			}
			return Types[a]().DecodeSize(bufs[b][off:len(bufs[b]):len(bufs[b])])
		})
	case "Z":
		n := Types[int(t.U())]()
		b := t.U()
		off := t.U()
		return fmt.Sprint("ok ", n.DecodeSize(bufs[b][off:len(bufs[b]):len(bufs[b])]))
	}
	s := t.U()
	switch op {
	case "N":
		slots[s] = Types[int(t.U())]()
		return "ok"
	case "Y":
		v := reflect.New(reflect.TypeOf(slots[s]).Elem())
		v.Elem().Set(reflect.ValueOf(slots[s]).Elem())
		slots[t.U()] = v.Interface().(Node)
		return "ok"
	case "F":
		slots[s].VFill(t)
		return "ok"
	case "X":
		slots[s].VFillA(t)
		return "ok"
	case "P":
		w := &Out{}
		slots[s].VDump(w)
		return "ok" + w.String()
	case "G":
		w := &Out{}
		slots[s].VDumpA(w)
		return "ok" + w.String()
	case "U":
		w := &Out{}
		for len(t.F) > 0 {
			slots[s].VAccGet(int(t.U()), w)
		}
		return "ok" + w.String()
	case "V":
		slots[s].VAccSet(int(t.U()), t)
		return "ok"
	case "I":
		return strings.Replace(strings.Replace(fmt.Sprint("ok ", slots[s].Dynamic(), " ", slots[s].Size()), "true", "1", 1), "false", "0", 1)
	case "S":
		return fmt.Sprint("ok ", slots[s].EncodeSize())
	case "E":
		b := t.U()
		off := t.U()
		return fmt.Sprint("ok ", slots[s].EncodeTo(bufs[b][off:len(bufs[b]):len(bufs[b])]))
	case "A":
		b := t.U()
		bufs[b] = slots[s].Encode()
		return fmt.Sprint("ok ", len(bufs[b]))
	case "D":
		b := t.U()
		off := t.U()
		return fmt.Sprint("ok ", slots[s].Decode(bufs[b][off:len(bufs[b]):len(bufs[b])]))
	}
	return "ex badop"
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		out.WriteString(do(&Tok{F: strings.Fields(line)}))
		out.WriteByte('\n')
		out.Flush()
	}
}
`
