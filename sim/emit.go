package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// ---- variants: a target language with one combination of options -------------

type Variant struct {
	Name string
	Lang string // c cpp go java cs py esm cjs
	Opts []string

	Memcpy, Compat, Single, Minimal bool
}

func mkVariant(name, lang string, opts ...string) *Variant {
	v := &Variant{Name: name, Lang: lang, Opts: opts}
	for _, o := range opts {
		switch o {
		case "-memcpy":
			v.Memcpy = true
		case "-compat":
			v.Compat = true
		case "-single":
			v.Single = true
		case "-minimal":
			v.Minimal = true
		}
	}
	switch lang {
	case "java", "esm", "cjs", "kt", "py":
		v.Memcpy = true
	}
	return v
}

// Copies reports whether decoded data is independent of the buffer it came from.
func (v *Variant) Copies() bool { return v.Memcpy }

// typ is one struct as generated for one variant: what a node is an instance of.
type typ struct {
	ID int
	V  *Variant
	VI int
	U  *Universe
	UI int
	S  *Struct
	SI int
}

func tidOf(vi, ui, si int) int { return vi*10000 + ui*100 + si }

// src accumulates generated source text.
type src struct{ strings.Builder }

func (s *src) p(format string, a ...any) { fmt.Fprintf(&s.Builder, format+"\n", a...) }

func writeFile(path, text string) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, []byte(text), 0o644)
}

// normals lists the value-carrying leaves of a struct.
func (u *Universe) normals(s *Struct) []*Field {
	var out []*Field
	for _, f := range u.Leaves(s) {
		if f.FK == FNormal {
			out = append(out, f)
		}
	}
	return out
}

// consts lists the named constants of a struct.
func (u *Universe) consts(s *Struct) []*Field {
	var out []*Field
	for _, f := range u.Leaves(s) {
		if f.FK == FConst && f.Name != "" {
			out = append(out, f)
		}
	}
	return out
}

// fileOf gives the file of the universe that defines a type.
func (u *Universe) fileOf(name string) int {
	if e := u.eIdx[name]; e != nil {
		return e.File
	}
	return u.sIdx[name].File
}

func pascal(s string) string {
	out := ""
	up := true
	for _, c := range s {
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 32
		}
		up = false
		out += string(c)
	}
	return out
}

func camel(s string) string {
	p := pascal(s)
	return strings.ToLower(p[:1]) + p[1:]
}
