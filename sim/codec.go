package main

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"
)

// ---- values -----------------------------------------------------------------

// Val is one value: a scalar bit pattern in the width of its type, a byte
// string, or a list (array elements, or the normal leaves of a struct).
type Val struct {
	I uint64 `json:",omitempty"`
	B []byte `json:",omitempty"`
	L []*Val `json:",omitempty"`
}

type valCfg struct {
	maxBlob int
	long    bool // lengths around the limits of the length prefix
	huge    *int // one field of this many bytes
}

func (u *Universe) genVal(s *Struct, r *RNG, c valCfg) *Val {
	v := &Val{}
	for _, f := range u.Leaves(s) {
		if f.FK != FNormal {
			continue
		}
		if f.Len > 0 {
			a := &Val{}
			for i := 0; i < f.Len; i++ {
				a.L = append(a.L, u.genOne(f, r, c))
			}
			v.L = append(v.L, a)
		} else {
			v.L = append(v.L, u.genOne(f, r, c))
		}
	}
	return v
}

func (u *Universe) genOne(f *Field, r *RNG, c valCfg) *Val {
	switch f.K {
	case KBool:
		return &Val{I: uint64(r.N(2))}
	case KEnum:
		e := u.enum(f.Ref)
		return &Val{I: e.Vals[r.N(len(e.Vals))].V}
	case KStruct:
		return u.genVal(u.strct(f.Ref), r, c)
	case KString:
		n := r.N(6)
		switch {
		case c.huge != nil && *c.huge > 0 && r.P(60):
			n, *c.huge = *c.huge, 0
		case c.long && r.P(25):
			n = []int{63, 64, 126, 127, 128, 129, 255, 256, 257, 300}[r.N(10)]
		case r.P(20):
			n = r.N(c.maxBlob)
		}
		var b []byte
		for len(b) < n {
			var x rune
			k := r.N(8)
			if n > 60 && n-len(b) < 4 {
				k = 8 // so that it has exactly n bytes
			}
			switch k {
			case 0:
				x = rune(r.Range(0x80, 0x7ff))
			case 1:
				x = rune(r.Range(0x800, 0xd7ff))
			case 2:
				x = rune(r.Range(0x10000, 0x10ffff))
			case 3:
				x = rune(r.Range(1, 0x1f))
			case 4:
				x = rune(r.Range(0xe000, 0xfffd))
			default:
				x = rune(r.Range(0x20, 0x7f))
			}
			if x == 0xfeff {
				x = 'B' // a byte-order mark is not plain text
			}
			b = utf8.AppendRune(b, x)
		}
		return &Val{B: b}
	case KBytes:
		n := r.N(7)
		switch {
		case c.huge != nil && *c.huge > 0:
			n, *c.huge = *c.huge, 0
		case c.long && r.P(35):
			n = []int{127, 128, 129, 255, 256, 300, 126}[r.N(7)]
		case r.P(15):
			n = r.N(c.maxBlob)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64())
			if r.P(15) {
				b[i] = []byte{0, 0x80, 0xff, 0x7f}[r.N(4)]
			}
		}
		return &Val{B: b}
	case KF32:
		for {
			x := uint32(r.U64())
			switch r.N(6) {
			case 0:
				x = math.Float32bits(float32(r.N(2000)-1000) / 8)
			case 1:
				x = []uint32{0, 0x80000000, 0x7f800000, 0xff800000, 1, 0x7f7fffff, 0x80000001, 0x00800000}[r.N(8)]
			}
			if math.IsNaN(float64(math.Float32frombits(x))) {
				continue
			}
			return &Val{I: uint64(x)}
		}
	case KF64:
		for {
			x := r.U64()
			switch r.N(6) {
			case 0:
				x = math.Float64bits(float64(r.N(2000)-1000) / 8)
			case 1:
				x = []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x7fefffffffffffff}[r.N(6)]
			}
			if math.IsNaN(math.Float64frombits(x)) {
				continue
			}
			return &Val{I: x}
		}
	}
	// integers: in range for the declared width
	w := f.Bits
	x := r.U64()
	switch r.N(6) {
	case 0:
		x = 0
	case 1:
		x = ^uint64(0)
	case 2: // extreme of the range
		x = maskN(w - 1)
	case 3:
		x = uint64(1) << uint(w-1)
	case 4:
		x = uint64(r.N(4))
	}
	x &= maskN(w)
	if f.K.Signed() && x>>(uint(w)-1)&1 == 1 {
		x |= ^maskN(w)
	}
	return &Val{I: x & maskN(kindBits[f.K])}
}

// ---- reference codec --------------------------------------------------------

type bitBuf struct {
	b    []byte
	void []byte // bits that are padding: not defined by the protocol
	n    int    // length in bits
	cb   []int  // bit positions of constants
	lens [][2]int
}

func (w *bitBuf) put(bit uint64, void bool) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
		w.void = append(w.void, 0)
	}
	if bit&1 == 1 {
		w.b[w.n/8] |= 1 << (w.n % 8)
	}
	if void {
		w.void[w.n/8] |= 1 << (w.n % 8)
	}
	w.n++
}

func (w *bitBuf) bytes(p []byte) {
	for _, x := range p {
		w.b = append(w.b, x)
		w.void = append(w.void, 0)
		w.n += 8
	}
}

// valueBit maps bit j of a field of the given width on the wire to a bit of the
// value: little-endian fields are sent from the least significant bit, big-endian
// ones by whole bytes from the most significant end, the remainder last.
func valueBit(j, width int, big bool) int {
	if !big {
		return j
	}
	sh := width - 8*(j/8+1)
	if sh < 0 {
		sh = 0
	}
	return sh + j%8
}

func (w *bitBuf) field(v uint64, width int, big bool) {
	for j := 0; j < width; j++ {
		w.put(v>>uint(valueBit(j, width, big)), false)
	}
}

func (u *Universe) encode(s *Struct, v *Val, w *bitBuf) {
	i := 0
	for _, f := range u.Leaves(s) {
		switch f.FK {
		case FVoid:
			for j := 0; j < f.Bits; j++ {
				w.put(0, true)
			}
		case FConst:
			for j := 0; j < f.Bits; j++ {
				w.cb = append(w.cb, w.n+j)
			}
			w.field(f.CBits, f.Bits, f.Big)
		case FNormal:
			x := v.L[i]
			i++
			if f.Len > 0 {
				for _, e := range x.L {
					u.encodeOne(f, e, w)
				}
			} else {
				u.encodeOne(f, x, w)
			}
		}
	}
}

func (u *Universe) encodeOne(f *Field, v *Val, w *bitBuf) {
	switch f.K {
	case KString:
		w.bytes(v.B)
		w.bytes([]byte{0})
	case KBytes:
		n := uint64(len(v.B))
		at := len(w.b)
		for {
			c := byte(n & 0x7f)
			n >>= 7
			if n != 0 {
				w.bytes([]byte{c | 0x80})
				continue
			}
			w.bytes([]byte{c})
			break
		}
		w.lens = append(w.lens, [2]int{at, len(w.b) - at})
		w.bytes(v.B)
	case KStruct:
		u.encode(u.strct(f.Ref), v, w)
	default:
		w.field(v.I, f.Bits, f.Big)
	}
}

// Frame is an encoded record: its bytes and a mask of its padding bits.
type Frame struct {
	Bytes []byte
	Void  []byte
	Const []int    // bit positions of constant fields
	Lens  [][2]int // where length prefixes are, and how long
}

func (u *Universe) Encode(s *Struct, v *Val) *Frame {
	w := &bitBuf{}
	u.encode(s, v, w)
	if w.n%8 != 0 {
		panic("model: struct not byte aligned")
	}
	return &Frame{Bytes: w.b, Void: w.void, Const: w.cb, Lens: w.lens}
}

// decode status of the reference
type dstat int

const (
	dOK    dstat = iota
	dShort       // more bytes are needed
	dConst       // a constant does not match
	dWeird       // outside the documented format: unknown enum value, invalid UTF-8, overlong length
)

type rdr struct {
	b    []byte
	pos  int // bits
	weak []string
	bad  bool // a constant mismatched
}

func (r *rdr) field(width int, big bool) (uint64, bool) {
	if r.pos+width > 8*len(r.b) {
		return 0, false
	}
	var v uint64
	for j := 0; j < width; j++ {
		p := r.pos + j
		bit := uint64(r.b[p/8]>>(p%8)) & 1
		v |= bit << uint(valueBit(j, width, big))
	}
	r.pos += width
	return v, true
}

// Decode reads one record. It reads the whole frame even when a constant
// mismatches, so that "complete" and "acceptable" are separate answers.
func (u *Universe) Decode(s *Struct, b []byte) (v *Val, used int, st dstat, weird []string) {
	r := &rdr{b: b}
	v, ok := u.decode(s, r)
	if !ok {
		return nil, 0, dShort, r.weak
	}
	st = dOK
	if len(r.weak) > 0 {
		st = dWeird
	}
	if r.bad {
		st = dConst
	}
	return v, r.pos / 8, st, r.weak
}

func (u *Universe) decode(s *Struct, r *rdr) (*Val, bool) {
	v := &Val{}
	for _, f := range u.Leaves(s) {
		switch f.FK {
		case FVoid:
			r.pos += f.Bits
			if r.pos > 8*len(r.b) {
				return nil, false
			}
		case FConst:
			x, ok := r.field(f.Bits, f.Big)
			if !ok {
				return nil, false
			}
			if x != f.CBits&maskN(f.Bits) {
				r.bad = true
			}
		case FNormal:
			if f.Len > 0 {
				a := &Val{}
				for i := 0; i < f.Len; i++ {
					e, ok := u.decodeOne(f, r)
					if !ok {
						return nil, false
					}
					a.L = append(a.L, e)
				}
				v.L = append(v.L, a)
			} else {
				e, ok := u.decodeOne(f, r)
				if !ok {
					return nil, false
				}
				v.L = append(v.L, e)
			}
		}
	}
	return v, true
}

func (u *Universe) decodeOne(f *Field, r *rdr) (*Val, bool) {
	switch f.K {
	case KString:
		i := r.pos / 8
		j := i
		for j < len(r.b) && r.b[j] != 0 {
			j++
		}
		if j >= len(r.b) {
			return nil, false
		}
		r.pos = (j + 1) * 8
		x := r.b[i:j]
		if !utf8.Valid(x) {
			r.weak = append(r.weak, "utf8")
		}
		return &Val{B: append([]byte{}, x...)}, true
	case KBytes:
		i := r.pos / 8
		n, sh := uint64(0), uint(0)
		for {
			if i >= len(r.b) {
				return nil, false
			}
			c := r.b[i]
			i++
			if sh >= 28 && (c&0x7f != 0 || c&0x80 != 0) {
				r.weak = append(r.weak, "hugelen")
				return nil, false
			}
			n |= uint64(c&0x7f) << sh
			sh += 7
			if c&0x80 == 0 {
				// a longer form than need be means the same number
				break
			}
		}
		if uint64(len(r.b)-i) < n {
			return nil, false
		}
		x := append([]byte{}, r.b[i:i+int(n)]...)
		r.pos = (i + int(n)) * 8
		return &Val{B: x}, true
	case KStruct:
		return u.decode(u.strct(f.Ref), r)
	}
	x, ok := r.field(f.Bits, f.Big)
	if !ok {
		return nil, false
	}
	if f.K == KEnum {
		known := false
		for _, ev := range u.enum(f.Ref).Vals {
			known = known || ev.V == x
		}
		if !known {
			r.weak = append(r.weak, "enum")
		}
		return &Val{I: x}, true
	}
	if f.K == KF32 && math.IsNaN(float64(math.Float32frombits(uint32(x)))) || f.K == KF64 && math.IsNaN(math.Float64frombits(x)) {
		r.weak = append(r.weak, "nan") // a runtime may change the bits of a NaN
	}
	if f.K == KBool {
		if x > 1 {
			r.weak = append(r.weak, "bool")
			x = 1
		}
		return &Val{I: x}, true
	}
	if f.K.Signed() && x>>(uint(f.Bits)-1)&1 == 1 {
		x |= ^maskN(f.Bits)
	}
	return &Val{I: x & maskN(kindBits[f.K])}, true
}

// expected gives the value a receiver must see for a sent value: the same, with
// narrowed floats reduced to the bits that travel.
func (u *Universe) expected(s *Struct, v *Val) *Val {
	out, _, _, _ := u.Decode(s, u.Encode(s, v).Bytes)
	return out
}

// ---- token form: how values travel between the simulator and the workers -----

func (u *Universe) tokens(s *Struct, v *Val, out []string) []string {
	i := 0
	for _, f := range u.Leaves(s) {
		if f.FK != FNormal {
			continue
		}
		x := v.L[i]
		i++
		if f.Len > 0 {
			for _, e := range x.L {
				out = u.token(f, e, out)
			}
		} else {
			out = u.token(f, x, out)
		}
	}
	return out
}

// valTokens are the tokens of one field.
func (u *Universe) valTokens(f *Field, v *Val) []string {
	if f.Len == 0 {
		return u.token(f, v, nil)
	}
	var out []string
	for _, e := range v.L {
		out = u.token(f, e, out)
	}
	return out
}

func (u *Universe) token(f *Field, v *Val, out []string) []string {
	switch {
	case f.K == KStruct:
		return u.tokens(u.strct(f.Ref), v, out)
	case f.K == KString || f.K == KBytes:
		return append(out, fmt.Sprintf("x%x", v.B))
	case f.K == KF32 && math.IsNaN(float64(math.Float32frombits(uint32(v.I)))),
		f.K == KF64 && math.IsNaN(math.Float64frombits(v.I)):
		return append(out, "nan")
	case f.K.Float():
		return append(out, fmt.Sprintf("%x", v.I))
	case f.K.Signed():
		sh := uint(64 - kindBits[f.K])
		return append(out, fmt.Sprint(int64(v.I<<sh)>>sh))
	}
	return append(out, fmt.Sprint(v.I))
}

func (u *Universe) tokenString(s *Struct, v *Val) string {
	return strings.Join(u.tokens(s, v, nil), " ")
}

// reblob is v with other contents of the same lengths in its strings and byte strings.
func (u *Universe) reblob(s *Struct, v *Val, salt byte, str, byt bool) *Val {
	out := cloneVal(v)
	i := 0
	one := func(f *Field, x *Val) *Val {
		switch {
		case f.K == KStruct:
			return u.reblob(u.strct(f.Ref), x, salt, str, byt)
		case f.K == KBytes && byt:
			for k := range x.B {
				x.B[k] ^= 0x55 + salt
			}
		case f.K == KString && str:
			for k, c := range x.B {
				if c >= 1 && c < 0x80 {
					x.B[k] = (c+salt%100)%0x7f + 1
				}
			}
		}
		return x
	}
	for _, f := range u.Leaves(s) {
		if f.FK != FNormal {
			continue
		}
		if f.Len > 0 {
			for k, e := range out.L[i].L {
				out.L[i].L[k] = one(f, e)
			}
		} else {
			out.L[i] = one(f, out.L[i])
		}
		i++
	}
	return out
}

// markOdd is v with every enum value the schema does not name changed.
func (u *Universe) markOdd(s *Struct, v *Val) *Val {
	out := cloneVal(v)
	i := 0
	one := func(f *Field, x *Val) *Val {
		switch f.K {
		case KStruct:
			return u.markOdd(u.strct(f.Ref), x)
		case KEnum:
			for _, ev := range u.enum(f.Ref).Vals {
				if ev.V == x.I {
					return x
				}
			}
			x.I ^= 1 << 63
		}
		return x
	}
	for _, f := range u.Leaves(s) {
		if f.FK != FNormal {
			continue
		}
		if f.Len > 0 {
			for k, e := range out.L[i].L {
				out.L[i].L[k] = one(f, e)
			}
		} else {
			out.L[i] = one(f, out.L[i])
		}
		i++
	}
	return out
}

// posZero is v with every negative zero turned positive.
func (u *Universe) posZero(s *Struct, v *Val) *Val {
	out := cloneVal(v)
	i := 0
	one := func(f *Field, x *Val) *Val {
		switch {
		case f.K == KStruct:
			return u.posZero(u.strct(f.Ref), x)
		case f.K == KF32 && uint32(x.I) == 1<<31, f.K == KF64 && x.I == 1<<63:
			x.I = 0
		}
		return x
	}
	for _, f := range u.Leaves(s) {
		if f.FK != FNormal {
			continue
		}
		if f.Len > 0 {
			for k, e := range out.L[i].L {
				out.L[i].L[k] = one(f, e)
			}
		} else {
			out.L[i] = one(f, out.L[i])
		}
		i++
	}
	return out
}
