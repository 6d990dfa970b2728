package main

import (
	"fmt"
	"math"
	"path"
	"strings"
)

// ---- schema model -----------------------------------------------------------
//
// A Universe is a few .bb sources, most often a library file and a file importing it.
// The model is independent of the compiler under test: it is what the simulator
// knows about the protocol, and the reference codec (codec.go) works on it alone.

type Kind int

const (
	KBool Kind = iota
	KU8
	KU16
	KU32
	KU64
	KI8
	KI16
	KI32
	KI64
	KF32
	KF64
	KString
	KBytes
	KEnum
	KStruct
)

var kindName = []string{"bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "string", "bytes", "enum", "struct"}
var kindBits = []int{8, 8, 16, 32, 64, 8, 16, 32, 64, 32, 64, -1, -1, -1, -1}

func (k Kind) Signed() bool  { return k >= KI8 && k <= KI64 }
func (k Kind) Float() bool   { return k == KF32 || k == KF64 }
func (k Kind) Basic() bool   { return k <= KF64 }
func (k Kind) Integer() bool { return k >= KU8 && k <= KI64 }

type Enum struct {
	Name string
	Bits int
	Vals []EnumVal
	File int // index into Files
}
type EnumVal struct {
	Name     string
	V        uint64
	Implicit bool   // no "= n" in the source: previous value plus one
	Ident    string // written as the name of an earlier enum value
}

type FKind int

const (
	FNormal FKind = iota
	FVoid
	FConst
	FEmbed
)

type Field struct {
	FK    FKind
	Name  string
	K     Kind
	Ref   string // enum or struct name
	Len   int    // array length, 0 for a scalar
	Bits  int    // bits per element (fixed kinds and enums); void width
	Sized bool   // width spelled out in the source
	Big   bool
	Const string // source text of the constant
	CBits uint64 // its bit pattern, in the width of the type
	Accs  []*Acc // custom accessors
}

type Struct struct {
	Name   string
	File   int
	Fields []Field
	Shown  bool // width spelled out in the source
	Inline bool // defined inside the struct that embeds it
	Placed bool // defined where its only user declares a field of it
}

type Universe struct {
	ID      int
	Enums   []*Enum
	Structs []*Struct
	Inlines []*Struct // defined in place; not types of their own
	Files   []*UFile  // the last is the one compiled; file i sees the files before it

	names []string // field names still to be given out that generated code may use for itself

	eIdx map[string]*Enum
	sIdx map[string]*Struct
}

// localNames are names that generated code has for parameters and variables.
var localNames = []string{"data", "offset", "start", "result", "length", "obj", "other", "src_shift", "mask",
	"bit_size", "sub_size", "sub_offset", "part", "shift", "index", "encoded", "end", "field_bit", "temp_field_at_pos_0",
	"current", "buf", "ptr", "i", "k", "n", "v", "x", "o", "b", "t", "j", "m0", "number", "buffer", "tmp", "len", "pos",
	"err", "ok", "ret", "res", "dst", "src", "text", "count", "total"}

// UFile is one source file. Names are made unique per variant when it is written.
type UFile struct {
	Path    string // without extension
	Pkg     string // what follows VARIANT.uN.
	Imports []int
	Go      string // last parts of the Go package; "" for those of Pkg
	Cpp     string // C++ namespace, "" for that of the package
	Cs      string
	Java    string
	Empty   bool // imports only
	Omit    bool // omit_empty
}

func (u *Universe) index() {
	u.eIdx = map[string]*Enum{}
	u.sIdx = map[string]*Struct{}
	for _, e := range u.Enums {
		u.eIdx[e.Name] = e
	}
	for _, s := range u.Structs {
		u.sIdx[s.Name] = s
	}
	for _, s := range u.Inlines {
		u.sIdx[s.Name] = s
	}
}

func (e *Enum) max() (m uint64) {
	for _, v := range e.Vals {
		m = max(m, v.V)
	}
	return
}

func (u *Universe) enum(n string) *Enum    { return u.eIdx[n] }
func (u *Universe) strct(n string) *Struct { return u.sIdx[n] }

// typeBits is the full width of one element of the field's type (-1: dynamic).
func (u *Universe) typeBits(f *Field) int {
	switch f.K {
	case KEnum:
		return u.enum(f.Ref).Bits
	case KStruct:
		if u.dynamic(u.strct(f.Ref)) {
			return -1
		}
		return u.fixedBits(u.strct(f.Ref))
	}
	return kindBits[f.K]
}

// Leaves flattens embedded structs: the fields that appear on the wire and, for
// normal fields, in the generated type.
func (u *Universe) Leaves(s *Struct) []*Field {
	var out []*Field
	for i := range s.Fields {
		f := &s.Fields[i]
		if f.FK == FEmbed {
			out = append(out, u.Leaves(u.strct(f.Ref))...)
			continue
		}
		out = append(out, f)
	}
	return out
}

func (u *Universe) fieldDynamic(f *Field) bool {
	if f.FK != FNormal {
		return false
	}
	switch f.K {
	case KString, KBytes:
		return true
	case KStruct:
		return u.dynamic(u.strct(f.Ref))
	}
	return false
}

func (u *Universe) dynamic(s *Struct) bool {
	for _, f := range u.Leaves(s) {
		if u.fieldDynamic(f) {
			return true
		}
	}
	return false
}

func (f *Field) count() int {
	if f.Len > 0 {
		return f.Len
	}
	return 1
}

// fixedBits sums the widths of the fixed part (dynamic fields count as 0).
func (u *Universe) fixedBits(s *Struct) int {
	n := 0
	for _, f := range u.Leaves(s) {
		if u.fieldDynamic(f) {
			continue
		}
		n += u.leafBits(f)
	}
	return n
}

func (u *Universe) leafBits(f *Field) int {
	if f.FK == FNormal && f.K == KStruct {
		return u.fixedBits(u.strct(f.Ref)) * f.count()
	}
	return f.Bits * f.count()
}

// ---- generation -------------------------------------------------------------

type GenCfg struct {
	Structs int
	// feature switches, drawn per universe (swarm style)
	Dyn, Big, Odd, Consts, Voids, Embeds, Nested, Arrays, Floats, BigEnums bool
	MaxArr, LongArr                                                        int
	MoreDyn, MoreConst, Accs                                               bool
}

func genUniverse(id int, r *RNG, cfg GenCfg) *Universe {
	u := &Universe{ID: id}
	u.layout(r.Fork("files"), cfg)
	u.index()
	if nr := r.Fork("names"); nr.P(40) {
		u.names = append(u.names, localNames...)
		for i := range u.names {
			j := i + nr.N(len(u.names)-i)
			u.names[i], u.names[j] = u.names[j], u.names[i]
		}
	}
	ne := r.Range(2, 4)
	for i := 0; i < ne; i++ {
		bits := []int{8, 8, 3, 5, 1, 12, 16, 7, 4, 2}[r.N(10)]
		if cfg.BigEnums && r.P(30) {
			bits = []int{20, 24, 31, 9, 32, 33, 40, 48, 57, 63, 64}[r.N(11)]
		}
		e := &Enum{Name: fmt.Sprintf("U%dE%d", id, i), Bits: bits, File: u.nthFull(i*7%ne, ne)}
		max := uint64(1)<<bits - 1
		if bits == 64 { // values are below 2^63
			max >>= 1
		}
		cur := uint64(0)
		nv := r.Range(2, 5)
		if max < 8 && nv > int(max)+1 {
			nv = int(max) + 1
		}
		for j := 0; j < nv; j++ {
			v := EnumVal{Name: fmt.Sprintf("U%dE%d%c", id, i, 'A'+j)}
			if j == 0 {
				if r.P(50) {
					v.Implicit, cur = true, 0
				} else {
					cur = r.U64() % (max/2 + 1)
				}
			} else if j > 0 && r.P(7) {
				// another name for the same value
			} else if cur == max {
				break
			} else if r.P(40) {
				v.Implicit, cur = true, cur+1
			} else if j == nv-1 && r.P(60) {
				cur = max
			} else {
				cur = cur + 1 + r.U64()%(max-cur)
			}
			v.V = cur
			if !v.Implicit && r.P(25) {
				// name an earlier enum's value instead of a number
				for _, pe := range u.Enums {
					if pe.File > e.File {
						continue
					}
					for _, pv := range pe.Vals {
						if pv.V == cur {
							v.Ident = pv.Name
						}
					}
				}
			}
			e.Vals = append(e.Vals, v)
		}
		u.Enums = append(u.Enums, e)
	}
	u.index()
	for i := 0; i < cfg.Structs; i++ {
		s := genStruct(u, i, r.Fork(fmt.Sprintf("struct%d", i)), cfg)
		s.File = u.nthFull(i, cfg.Structs)
		for j := range s.Fields { // what a file uses is in it or below it
			f := &s.Fields[j]
			if f.K == KEnum && f.FK == FNormal {
				u.lower(u.enum(f.Ref), s.File)
			}
			if f.FK == FConst {
				for _, e := range u.Enums {
					for _, v := range e.Vals {
						if v.Name == f.Const {
							u.lower(e, s.File)
						}
					}
				}
			}
		}
		for j := range s.Fields {
			if x := u.sIdx[s.Fields[j].Ref]; x != nil && x.Inline && s.Fields[j].FK == FEmbed {
				if strings.HasPrefix(x.Name, s.Name+"In") {
					x.File = s.File
				}
			}
		}
		u.Structs = append(u.Structs, s)
		u.index()
	}
	u.place(r.Fork("placed"))
	if cfg.Accs {
		genAccs(u, r.Fork("accs"))
	}
	return u
}

// place has some structs that only one field uses defined as the type of that field.
func (u *Universe) place(r *RNG) {
	users := map[string][]*Struct{}
	uses := map[string]int{}
	for _, s := range u.Structs {
		for i := range s.Fields {
			if f := &s.Fields[i]; f.K == KStruct && f.Ref != "" {
				users[f.Ref] = append(users[f.Ref], s)
				if f.FK == FEmbed {
					uses[f.Ref] = 2 // names of a struct that is embedded stay where they are
				}
				uses[f.Ref]++
			}
		}
	}
	for _, t := range u.Structs {
		if uses[t.Name] == 1 && users[t.Name][0].File == t.File && r.P(60) {
			t.Placed = true
		}
	}
}

// lower moves an enum, and those it takes values from, to a file or below it.
func (u *Universe) lower(e *Enum, file int) {
	if e.File <= file {
		return
	}
	e.File = file
	for _, v := range e.Vals {
		if v.Ident == "" {
			continue
		}
		for _, o := range u.Enums {
			for _, w := range o.Vals {
				if w.Name == v.Ident {
					u.lower(o, file)
				}
			}
		}
	}
}

// nthFull spreads n things over the files that hold definitions.
func (u *Universe) nthFull(i, n int) int {
	var full []int
	for j, f := range u.Files {
		if !f.Empty {
			full = append(full, j)
		}
	}
	return full[i*len(full)/n]
}

// layout draws the files of a universe: how many, which imports lead where, how
// their packages are called, and which carry names of their own for a target.
func (u *Universe) layout(r *RNG, cfg GenCfg) {
	if r.P(30) {
		u.Files = []*UFile{{Path: fmt.Sprintf("lib%d", u.ID), Pkg: fmt.Sprintf("lib%d", u.ID)}, {Path: fmt.Sprintf("msg%d", u.ID), Pkg: fmt.Sprintf("msg%d", u.ID), Imports: []int{0}}}
		return
	}
	n := r.Range(2, 4)
	empty := -1
	if n > 2 && r.P(60) {
		empty = r.Range(1, n-2)
	}
	style := r.N(4)
	named := r.P(60)
	for i := 0; i < n; i++ {
		f := &UFile{Path: []string{"", "sub/", "sub/deep/", "x/"}[r.N(4)] + fmt.Sprintf("f%d_%d", u.ID, i)}
		switch style {
		case 0:
			f.Pkg = fmt.Sprintf("p%d_%d", u.ID, i)
		case 1: // packages told apart by their path alone
			f.Pkg = []string{"common", "a.common", "a.b.common", "b.common"}[i]
		case 2: // packages within packages
			f.Pkg = "q" + strings.Repeat(fmt.Sprintf(".q%d", u.ID), i)
		default:
			f.Pkg = []string{"z.y.x", "z.w", "v", "z.y.u"}[i]
		}
		if i > 0 {
			f.Imports = append(f.Imports, i-1)
			for j := 0; j < i-1; j++ {
				if r.P(25) {
					f.Imports = append(f.Imports, j)
				}
			}
			if r.P(50) {
				r.Shuffle(len(f.Imports), func(a, b int) { f.Imports[a], f.Imports[b] = f.Imports[b], f.Imports[a] })
			}
		}
		if i == empty {
			f.Empty, f.Omit = true, r.P(50)
		}
		if named && r.P(50) {
			f.Go = []string{"g%d", "g.h%d", "common%d"}[r.N(3)]
			f.Go = fmt.Sprintf(f.Go, i)
		}
		if named && r.P(50) {
			f.Cpp = []string{"n%d", "n::m%d", "n%d::common"}[r.N(3)]
			f.Cpp = fmt.Sprintf(f.Cpp, i)
		}
		if named && r.P(50) {
			f.Cs = fmt.Sprintf([]string{"N%d", "N.M%d"}[r.N(2)], i)
		}
		if named && r.P(50) {
			f.Java = fmt.Sprintf([]string{"j%d", "j.k%d"}[r.N(2)], i)
		}
		u.Files = append(u.Files, f)
	}
}

func genStruct(u *Universe, idx int, r *RNG, cfg GenCfg) *Struct {
	s := &Struct{Name: fmt.Sprintf("U%dS%d", u.ID, idx)}
	pos := 0 // bit position modulo 8 is what matters
	fi := 0
	name := func() string {
		fi++
		if n := len(u.names); n > 0 && r.P(20) {
			s := u.names[n-1]
			u.names = u.names[:n-1]
			return s
		}
		return fmt.Sprintf("s%d_f%d", idx, fi)
	}
	add := func(f Field) { s.Fields = append(s.Fields, f) }
	pad := func() {
		if k := (8 - pos%8) % 8; k != 0 {
			switch {
			case cfg.Voids && r.P(40):
				add(Field{FK: FVoid, Bits: k})
			case cfg.Consts && r.P(30):
				add(Field{FK: FConst, K: KU8, Bits: k, Sized: true, CBits: uint64(r.N(1 << k)), Name: ""})
				f := &s.Fields[len(s.Fields)-1]
				f.Const = fmt.Sprint(f.CBits)
			default:
				add(Field{Name: name(), K: KU8, Bits: k, Sized: true})
			}
			pos += k
		}
	}
	usedEmbeds := map[string]bool{}
	var embedNames func(x *Struct) []string
	embedNames = func(x *Struct) []string {
		out := []string{x.Name}
		for i := range x.Fields {
			if x.Fields[i].FK == FEmbed {
				out = append(out, embedNames(u.strct(x.Fields[i].Ref))...)
			}
		}
		return out
	}
	n := r.Range(2, 7)
	if r.P(25) {
		n = r.Range(1, 2)
	} else if r.P(4) {
		n = r.Range(12, 24)
	}
	for len(s.Fields) < n || pos%8 != 0 {
		if len(s.Fields) >= n+4 {
			pad()
			break
		}
		c := r.N(100)
		if cfg.MoreDyn && r.P(35) {
			c = r.Range(66, 87)
		} else if cfg.MoreConst && r.P(35) {
			c = 90
		}
		switch {
		case c < 34: // integers
			k := Kind(r.Range(int(KU8), int(KI64)))
			f := Field{Name: name(), K: k, Bits: kindBits[k]}
			if cfg.Odd && r.P(65) {
				f.Bits, f.Sized = r.Range(1, kindBits[k]), true
			}
			f.Big = cfg.Big && r.P(45)
			add(f)
			pos += f.Bits
		case c < 39:
			f := Field{Name: name(), K: KBool, Bits: 8}
			if r.P(70) {
				f.Bits, f.Sized = 1, true
			} else if r.P(30) {
				f.Bits, f.Sized = r.Range(1, 8), true
			}
			add(f)
			pos += f.Bits
		case c < 45:
			if !cfg.Floats {
				continue
			}
			k := []Kind{KF32, KF64}[r.N(2)]
			f := Field{Name: name(), K: k, Bits: kindBits[k], Big: cfg.Big && r.P(50)}
			if cfg.Odd && r.P(20) {
				f.Bits, f.Sized = kindBits[k]-r.Range(1, 20), true
			}
			add(f)
			pos += f.Bits
		case c < 53:
			e := u.Enums[r.N(len(u.Enums))]
			f := Field{Name: name(), K: KEnum, Ref: e.Name, Bits: e.Bits, Big: cfg.Big && r.P(30)}
			add(f)
			pos += f.Bits
		case c < 66: // arrays of fixed elements
			if !cfg.Arrays {
				continue
			}
			ln := r.Range(1, cfg.MaxArr)
			f := Field{Name: name(), Len: ln, Big: cfg.Big && r.P(45)}
			if r.P(20) {
				e := u.Enums[r.N(len(u.Enums))]
				f.K, f.Ref, f.Bits = KEnum, e.Name, e.Bits
			} else if cfg.Floats && r.P(15) {
				f.K = []Kind{KF32, KF64}[r.N(2)]
				f.Bits = kindBits[f.K]
			} else {
				f.K = Kind(r.N(int(KI64) + 1))
				f.Bits = kindBits[f.K]
				if cfg.Odd && r.P(60) {
					f.Bits, f.Sized = r.Range(1, kindBits[f.K]), true
				}
			}
			if n := []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}[r.N(14)]; r.P(cfg.LongArr) && n*f.Bits <= 2400 {
				ln = n
				f.Len = n
			}
			add(f)
			pos += f.Bits * ln
		case c < 74: // strings and bytes
			if !cfg.Dyn {
				continue
			}
			pad()
			f := Field{Name: name(), K: []Kind{KString, KBytes}[r.N(2)]}
			if cfg.Arrays && r.P(30) {
				f.Len = r.Range(1, cfg.MaxArr)
			}
			add(f)
		case c < 83: // nested structs
			if !cfg.Nested || len(u.Structs) == 0 {
				continue
			}
			t := u.Structs[r.N(len(u.Structs))]
			if !cfg.Dyn && u.dynamic(t) {
				continue
			}
			if weight(u, t) > 60 {
				continue
			}
			pad()
			f := Field{Name: name(), K: KStruct, Ref: t.Name}
			if cfg.Arrays && r.P(40) {
				f.Len = r.Range(1, 5)
			}
			add(f)
		case c < 88:
			if !cfg.Embeds || len(u.Structs) == 0 {
				continue
			}
			if r.P(35) { // defined in place
				x := &Struct{Name: fmt.Sprintf("%sIn%d", s.Name, len(s.Fields)), Inline: true}
				bits := 0
				for i, m := 0, r.Range(1, 3); i < m || bits%8 != 0; i++ {
					k := Kind(r.Range(int(KU8), int(KI32)))
					f := Field{Name: name(), K: k, Bits: r.Range(1, kindBits[k]), Sized: true, Big: cfg.Big && r.P(30)}
					if i >= m {
						f.K, f.Bits = KU8, 8-bits%8
					}
					bits += f.Bits
					x.Fields = append(x.Fields, f)
				}
				u.Inlines = append(u.Inlines, x)
				u.index()
				usedEmbeds[x.Name] = true
				if r.P(70) {
					pad()
				}
				add(Field{FK: FEmbed, K: KStruct, Ref: x.Name})
				continue
			}
			t := u.Structs[r.N(len(u.Structs))]
			if weight(u, t) > 40 {
				continue
			}
			clash := false
			for _, nm := range embedNames(t) {
				clash = clash || usedEmbeds[nm]
			}
			if clash {
				continue
			}
			for _, nm := range embedNames(t) {
				usedEmbeds[nm] = true
			}
			if needsAlign(u, t) || r.P(60) {
				pad()
			}
			add(Field{FK: FEmbed, K: KStruct, Ref: t.Name})
		case c < 94:
			if !cfg.Consts {
				continue
			}
			f := Field{FK: FConst, K: Kind(r.N(int(KF64) + 1))}
			f.Bits = kindBits[f.K]
			if cfg.Odd && r.P(50) {
				f.Bits, f.Sized = r.Range(1, kindBits[f.K]), true
			}
			if r.P(50) {
				f.Name = name()
			}
			f.Big = cfg.Big && r.P(40)
			genConst(u, &f, r, cfg)
			add(f)
			pos += f.Bits
		default:
			if !cfg.Voids {
				continue
			}
			f := Field{FK: FVoid, Bits: r.Range(1, 12)}
			if r.P(20) {
				f.Bits = 8
			} else if r.P(15) {
				f.Bits = r.Range(13, 200)
			}
			add(f)
			pos += f.Bits
		}
	}
	pad()
	// at least one normal field, and at least one byte
	has := false
	for _, f := range u.Leaves(s) {
		has = has || f.FK == FNormal
	}
	if !has {
		add(Field{Name: name(), K: KU8, Bits: 8})
	}
	s.Shown = r.P(30)
	return s
}

func genConst(u *Universe, f *Field, r *RNG, cfg GenCfg) {
	switch {
	case f.K == KBool:
		f.CBits = uint64(r.N(2))
		f.Const = []string{"false", "true"}[f.CBits]
	case f.K.Float():
		v := []float64{0.5, 1.25, 3, 100.75, 0.1, -0.3, 1e-7, 2.5e-30, 3.141592653589793, -123456.789012, 1e25, 0.0000015, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN()}[r.N(16)]
		f.Const = strings.ToLower(strings.TrimPrefix(fmt.Sprint(v), "+"))
		if math.IsInf(v, 0) || v != v {
		} else if !strings.ContainsAny(f.Const, ".e") {
			f.Const += ".0"
		}
		if strings.HasPrefix(f.Const, "0.") && r.P(20) {
			f.Const = f.Const[1:]
		}
		if f.K == KF32 {
			f.CBits = uint64(math.Float32bits(float32(v)))
		} else {
			f.CBits = math.Float64bits(v)
		}
	default:
		w := f.Bits
		if u != nil && !f.K.Signed() && r.P(25) {
			e := u.Enums[r.N(len(u.Enums))]
			v := e.Vals[r.N(len(e.Vals))]
			if v.V <= maskN(w) {
				f.Const, f.CBits = v.Name, v.V
				return
			}
		}
		if f.K.Signed() {
			v := int64(r.U64()) >> (64 - uint(w))
			if r.P(30) && v > 0 {
				v = v >> uint(r.N(w))
			}
			if v == math.MinInt64 {
				v++
			}
			f.CBits = uint64(v) & maskN(kindBits[f.K])
			f.Const = intText(v, r)
		} else {
			v := r.U64() & maskN(w)
			if w == 64 {
				v &= math.MaxInt64
			}
			f.CBits = v
			f.Const = intText(int64(v), r)
		}
	}
}

// intText spells a constant in one of the ways the grammar has.
func intText(v int64, r *RNG) string {
	sign := ""
	if v < 0 {
		sign, v = []string{"-", "- "}[r.N(2)], -v
	} else if r.P(8) {
		sign = "+"
	}
	return sign + fmt.Sprintf([]string{"%d", "%d", "0x%X", "0x%x", "0%o"}[r.N(5)], v)
}

func needsAlign(u *Universe, s *Struct) bool {
	for _, f := range u.Leaves(s) {
		if f.FK == FNormal && (f.K == KString || f.K == KBytes || f.K == KStruct) {
			return true
		}
	}
	return false
}

// weight estimates the number of scalar values in a struct, to keep frames small.
func weight(u *Universe, s *Struct) int {
	n := 0
	for _, f := range u.Leaves(s) {
		if f.K == KStruct && f.FK == FNormal {
			n += f.count() * weight(u, u.strct(f.Ref))
		} else {
			n += f.count()
		}
	}
	return n
}

func maskN(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<uint(n) - 1
}

// ---- rendering --------------------------------------------------------------

func sizeText(bits int, r *RNG) string {
	if bits%8 == 0 && r.P(60) {
		return fmt.Sprintf("[%d]", bits/8)
	}
	if bits > 8 && r.P(60) {
		return fmt.Sprintf("[%d#%d]", bits/8, bits%8)
	}
	return fmt.Sprintf("[#%d]", bits)
}

// Render gives the source text of a file of the universe for one variant. The
// package prefix is the variant's name: it has no influence on the wire.
func (u *Universe) Render(variant string, i int) string { return u.renderFile(i, variant) }

func (u *Universe) root() *UFile { return u.Files[len(u.Files)-1] }

// where a file's definitions end up in the targets' worlds
func (u *Universe) pkg(variant string, i int) string {
	return fmt.Sprintf("%s.u%d.%s", variant, u.ID, u.Files[i].Pkg)
}

func (u *Universe) goPkg(variant string, i int) string {
	if g := u.Files[i].Go; g != "" {
		return fmt.Sprintf("%s/u%d/%s", variant, u.ID, strings.ReplaceAll(g, ".", "/"))
	}
	return strings.ReplaceAll(u.pkg(variant, i), ".", "/")
}

func (u *Universe) cppNS(variant string, i int) string {
	if c := u.Files[i].Cpp; c != "" {
		return fmt.Sprintf("%s::u%d::%s", variant, u.ID, c)
	}
	return strings.ReplaceAll(u.pkg(variant, i), ".", "::")
}

func (u *Universe) csNS(variant string, i int) string {
	if c := u.Files[i].Cs; c != "" {
		return fmt.Sprintf("C%s.U%d.%s", variant, u.ID, c)
	}
	return csNS(u.pkg(variant, i))
}

func (u *Universe) javaPkg(variant string, i int) string {
	if c := u.Files[i].Java; c != "" {
		return fmt.Sprintf("%s.u%d.%s", variant, u.ID, c)
	}
	return u.pkg(variant, i)
}

func (u *Universe) renderFile(fi int, variant string) string {
	var b strings.Builder
	r := NewRNG(seedOf("render", u.ID))
	x := u.Files[fi]
	fmt.Fprintf(&b, "package %s;\n", u.pkg(variant, fi))
	fmt.Fprintf(&b, "option go_package = \"simmod/%s\";\n", u.goPkg(variant, fi))
	if x.Cpp != "" {
		fmt.Fprintf(&b, "option cpp_namespace = %q;\n", u.cppNS(variant, fi))
	}
	if x.Cs != "" {
		fmt.Fprintf(&b, "option csharp_namespace = %q;\n", u.csNS(variant, fi))
	}
	if x.Java != "" {
		fmt.Fprintf(&b, "option java_package = %q;\n", u.javaPkg(variant, fi))
	}
	if x.Java != "" {
		fmt.Fprintf(&b, "option kotlin_package = %q;\n", u.ktPkg(variant, fi))
	}
	if x.Omit {
		fmt.Fprintf(&b, "option omit_empty = true;\n")
	}
	for _, j := range x.Imports {
		rel, _ := relPath(path.Dir("/"+x.Path), "/"+u.Files[j].Path+".bb")
		fmt.Fprintf(&b, "import %q;\n", rel)
	}
	for _, e := range u.Enums {
		if e.File != fi {
			continue
		}
		fmt.Fprintf(&b, "enum %s%s {\n", e.Name, sizeText(e.Bits, r))
		for _, v := range e.Vals {
			if v.Implicit {
				fmt.Fprintf(&b, "    %s,\n", v.Name)
			} else if v.Ident != "" {
				fmt.Fprintf(&b, "    %s = %s,\n", v.Name, v.Ident)
			} else {
				fmt.Fprintf(&b, "    %s = %s%s\n", v.Name, strings.TrimPrefix(intText(int64(v.V), r), "+"), []string{",", ";"}[v.V&1])
			}
		}
		fmt.Fprintf(&b, "}\n")
	}
	for _, s := range u.Structs {
		if s.File != fi || s.Inline || s.Placed {
			continue
		}
		u.renderStruct(&b, s, r, "", "")
		b.WriteString("}\n")
	}
	return b.String()
}

func (u *Universe) renderStruct(b *strings.Builder, s *Struct, r *RNG, outer, ind string) {
	sz := ""
	if s.Shown && !u.dynamic(s) {
		sz = fmt.Sprintf("[%d]", u.fixedBits(s)/8)
	}
	fmt.Fprintf(b, "%sstruct %s%s {\n", ind, s.Name, sz)
	for i := range s.Fields {
		f := &s.Fields[i]
		switch f.FK {
		case FVoid:
			fmt.Fprintf(b, "    void %s;\n", sizeText(f.Bits, r))
		case FEmbed:
			if x := u.strct(f.Ref); x.Inline && strings.HasPrefix(x.Name, s.Name+"In") {
				u.renderStruct(b, x, r, s.Name, ind+"    ")
				fmt.Fprintf(b, "%s    };\n", ind)
				continue
			}
			fmt.Fprintf(b, "    %s%s;\n", []string{"", "struct "}[r.N(9)/8], f.Ref)
		default:
			t := f.Ref
			if t == "" {
				t = kindName[f.K]
			} else if x := u.sIdx[t]; x != nil && x.Placed {
				u.renderStruct(b, x, r, s.Name, ind+"    ")
				t = ind + "    }"
			} else if r.P(8) {
				t = map[Kind]string{KStruct: "struct ", KEnum: "enum "}[f.K] + t
			}
			if f.Len > 0 {
				t += fmt.Sprintf("<%d>", f.Len)
			}
			line := "    " + t
			if f.Name != "" {
				line += " " + f.Name
			}
			if f.Sized {
				line += sizeText(f.Bits*f.count(), r)
			}
			if f.FK == FConst {
				line += " = " + f.Const
			}
			if f.Big {
				line += " [order = \"big\"]"
			} else if r.P(5) && f.K != KStruct {
				line += " [order = \"little\"]"
			}
			if len(f.Accs) > 0 {
				line += " {"
				for _, a := range f.Accs {
					if a.Get != nil {
						line += fmt.Sprintf("\n        get %s(%s): %s;", a.Name, kindName[a.T], a.Get.text(r))
					}
					if a.Set != nil {
						line += fmt.Sprintf("\n        set %s(%s): %s;", a.Name, kindName[a.T], a.Set.text(r))
					}
				}
				line += "\n    }"
			}
			b.WriteString(line + ";\n")
		}
	}
}
