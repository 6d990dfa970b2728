package main

import (
	"fmt"
	"path"
	"strings"
)

// ---- projects: what the tool is run on -------------------------------------------

type Unit struct {
	Path    string // absolute
	Pkg     string
	Imports []int
	Forms   []string // how each import is written
	Opts    []string // option lines
	Body    []string // definitions
	Lead    string   // comment at the top
	Omit    bool
	structs []tStruct
	enums   []tEnum
}

type tStruct struct {
	name  string
	bytes int // -1: dynamic
	free  bool
}
type tEnum struct {
	name  string
	bytes int
	vals  []string
}

type Project struct {
	Units []*Unit
	Root  int
	Links map[string]string `json:",omitempty"`
	n     int
}

func (u *Unit) text() string {
	var b strings.Builder
	if u.Lead != "" {
		b.WriteString(u.Lead)
	}
	if u.Pkg != "" {
		fmt.Fprintf(&b, "package %s;\n", u.Pkg)
	}
	for _, o := range u.Opts {
		fmt.Fprintf(&b, "%s\n", o)
	}
	for _, f := range u.Forms {
		fmt.Fprintf(&b, "import %q;\n", f)
	}
	for _, d := range u.Body {
		b.WriteString("\n" + d)
	}
	return b.String()
}

func (p *Project) install(fs *simFS) {
	for _, u := range p.Units {
		fs.put(u.Path, []byte(u.text()))
	}
	for l, t := range p.Links {
		fs.link(l, t)
	}
}

func (p *Project) clone() *Project {
	q := &Project{Root: p.Root, n: p.n, Links: map[string]string{}}
	for k, v := range p.Links {
		q.Links[k] = v
	}
	for _, u := range p.Units {
		c := *u
		c.Imports = append([]int(nil), u.Imports...)
		c.Forms = append([]string(nil), u.Forms...)
		c.Opts = append([]string(nil), u.Opts...)
		c.Body = append([]string(nil), u.Body...)
		q.Units = append(q.Units, &c)
	}
	return q
}

// importForm writes the way from one file to another.
func importForm(from, to string, r *RNG, fancy bool) string {
	rel, _ := relPath(path.Dir(from), to)
	switch k := r.N(10); {
	case k < 6:
		return rel
	case k < 7 && !strings.HasPrefix(rel, ".."):
		return "./" + rel
	case k == 7:
		return to
	case k == 8 && fancy:
		d := path.Base(path.Dir(from))
		return "../" + d + "/" + rel
	case k == 9 && fancy:
		return "./" + strings.Replace(rel, "/", "//", 1)
	}
	return rel
}

func relPath(base, target string) (string, error) {
	b, t := splitPath(base), splitPath(target)
	i := 0
	for i < len(b) && i < len(t)-1 && b[i] == t[i] {
		i++
	}
	var out []string
	for j := i; j < len(b); j++ {
		out = append(out, "..")
	}
	return strings.Join(append(out, t[i:]...), "/"), nil
}

type ProjCfg struct {
	Max     int // units
	Base    string
	Kotlin  bool // options and accessors every target accepts
	Methods bool
	Fancy   bool
	Empty   bool // files with imports only
	Dense   int  // chance in percent of an import edge
}

var tWords = []string{"alpha", "bravo", "cargo", "delta", "engine", "frame", "gyro", "hydro", "imu", "jet", "keel", "lidar", "motor", "nav", "opti", "pump"}

// genProject makes a valid project: an acyclic graph of files in which unit i
// imports only units with larger numbers.
func genProject(r *RNG, c ProjCfg) *Project {
	p := &Project{Links: map[string]string{}}
	n := 1 + r.N(c.Max)
	dirs := []string{"", "", "lib", "lib/core", "x", "x/y/z"}
	opts := r.N(3)
	// now and then files of one name in many directories, directories of one name
	// in one another: the same words mean different files in different places
	twins := r.P(30)
	if twins {
		dirs = []string{"", "lib", "lib/lib", "lib/core", "core/lib", "lib/lib/lib"}
	}
	taken := map[string]bool{}
	for i := 0; i < n; i++ {
		w := tWords[(i*5+r.N(4))%len(tWords)]
		u := &Unit{Pkg: fmt.Sprintf("%s%d", w, i)}
		for k := r.N(3); k > 0; k-- {
			u.Pkg = pickS(r, "com", "org", "app", "proto", "dev") + "." + u.Pkg
		}
		u.Path = path.Join(c.Base, dirs[r.N(len(dirs))], fmt.Sprintf("%s%d.bb", w, i))
		if twins {
			for k := 0; k < 8; k++ {
				if at := path.Join(c.Base, dirs[r.N(len(dirs))], pickS(r, "common.bb", "types.bb")); !taken[at] {
					u.Path = at
					break
				}
			}
			taken[u.Path] = true
		}
		p.Units = append(p.Units, u)
	}
	for i := n - 1; i >= 0; i-- {
		u := p.Units[i]
		for j := i + 1; j < n; j++ {
			if j == i+1 && r.P(70) || r.P(c.Dense) {
				u.Imports = append(u.Imports, j)
				u.Forms = append(u.Forms, importForm(u.Path, p.Units[j].Path, r, c.Fancy))
			}
		}
		// imports in any order
		for k := len(u.Imports) - 1; k > 0; k-- {
			j := r.N(k + 1)
			u.Imports[k], u.Imports[j] = u.Imports[j], u.Imports[k]
			u.Forms[k], u.Forms[j] = u.Forms[j], u.Forms[k]
		}
		if opts > 0 {
			p.options(u, r)
		}
		if r.P(20) {
			u.Lead = "// " + u.Pkg + " — généré\n/* two\n   lines */\n"
		}
		if c.Empty && len(u.Imports) > 0 && r.P(20) {
			if r.P(50) {
				u.Omit = true
				u.Opts = append(u.Opts, "option omit_empty = true;")
			}
			continue
		}
		p.fill(u, r, c)
	}
	return p
}

func pickS(r *RNG, s ...string) string { return s[r.N(len(s))] }

func (p *Project) options(u *Unit, r *RNG) {
	last := u.Pkg[strings.LastIndexByte(u.Pkg, '.')+1:]
	if r.P(60) {
		u.Opts = append(u.Opts, fmt.Sprintf("option go_package = %q;", pickS(r, "example.com/", "example.com/p/", "gen/", "")+last))
	}
	if r.P(30) {
		u.Opts = append(u.Opts, fmt.Sprintf("option cpp_namespace = %q;", pickS(r, "ns::", "a::b::", "")+last))
	}
	if r.P(30) {
		u.Opts = append(u.Opts, fmt.Sprintf("option csharp_namespace = %q;", pickS(r, "Ns.", "A.B.")+strings.ToUpper(last[:1])+last[1:]))
	}
	if r.P(30) {
		u.Opts = append(u.Opts, fmt.Sprintf("option java_package = %q;", pickS(r, "j.", "com.j.")+last))
	}
	if r.P(30) {
		u.Opts = append(u.Opts, fmt.Sprintf("option kotlin_package = %q;", pickS(r, "k.", "com.k.")+last))
	}
}

func (p *Project) id(pre string) string { p.n++; return fmt.Sprintf("%s%d", pre, p.n) }

// fill writes a unit's definitions. Every name is used once in the project.
func (p *Project) fill(u *Unit, r *RNG, c ProjCfg) {
	for k := r.N(3); k > 0; k-- {
		e := tEnum{name: p.id("Kind"), bytes: 1 + r.N(2)}
		var b strings.Builder
		fmt.Fprintf(&b, "enum %s[%d] {\n", e.name, e.bytes)
		v := r.N(3)
		for j := 1 + r.N(4); j > 0; j-- {
			val := p.id("VAL_")
			e.vals = append(e.vals, val)
			switch r.N(3) {
			case 0:
				fmt.Fprintf(&b, "    %s,\n", val)
			case 1:
				v += r.N(9)
				fmt.Fprintf(&b, "    %s = %d,\n", val, v)
			default:
				v += r.N(20)
				fmt.Fprintf(&b, "    %s = 0x%02X,\n", val, v)
			}
			v++
		}
		b.WriteString("};\n")
		u.enums = append(u.enums, e)
		u.Body = append(u.Body, b.String())
	}
	for k := 1 + r.N(3); k > 0; k-- {
		p.structDef(u, r, c)
	}
	if len(u.Imports) > 1 && r.P(40) {
		p.collector(u, r)
	}
}

// collector defines a struct with something of every import in it.
func (p *Project) collector(u *Unit, r *RNG) {
	s := tStruct{name: p.id("All")}
	var b strings.Builder
	for _, i := range u.Imports {
		v := p.Units[i]
		if k := r.N(len(v.structs) + len(v.enums) + 1); k < len(v.structs) {
			t := v.structs[k]
			fmt.Fprintf(&b, "    %s %s;\n", t.name, p.id("f_"))
			if t.bytes < 0 || s.bytes < 0 {
				s.bytes = -1
			} else {
				s.bytes += t.bytes
			}
		} else if k -= len(v.structs); k < len(v.enums) {
			fmt.Fprintf(&b, "    %s %s;\n", v.enums[k].name, p.id("f_"))
			if s.bytes >= 0 {
				s.bytes += v.enums[k].bytes
			}
		}
	}
	if b.Len() == 0 {
		return
	}
	u.structs = append(u.structs, s)
	u.Body = append(u.Body, fmt.Sprintf("struct %s {\n%s};\n", s.name, b.String()))
}

func (p *Project) visible(u *Unit) (es []tEnum, ss []tStruct) {
	es = append(es, u.enums...)
	ss = append(ss, u.structs...)
	for _, i := range u.Imports {
		es = append(es, p.Units[i].enums...)
		ss = append(ss, p.Units[i].structs...)
	}
	return
}

var tInts = []struct {
	t string
	n int
}{{"uint8", 1}, {"uint16", 2}, {"uint32", 4}, {"uint64", 8}, {"int8", 1}, {"int16", 2}, {"int32", 4}, {"int64", 8}}

func (p *Project) structDef(u *Unit, r *RNG, c ProjCfg) {
	es, ss := p.visible(u)
	s := tStruct{name: p.id("Msg"), free: true}
	var b strings.Builder
	total := 0
	dyn := false
	embedded := map[string]bool{}
	order := func() string {
		if r.P(30) {
			return pickS(r, " [order = \"big\"]", " [order = \"little\"]")
		}
		return ""
	}
	for k := 1 + r.N(6); k > 0; k-- {
		f := p.id("f_")
		switch r.N(16) {
		case 0, 1:
			t := tInts[r.N(len(tInts))]
			fmt.Fprintf(&b, "    %s %s%s;\n", t.t, f, order())
			total += t.n
		case 2:
			t := tInts[r.N(len(tInts))]
			n := 1 + r.N(t.n)
			fmt.Fprintf(&b, "    %s %s[%d]%s;\n", t.t, f, n, order())
			total += n
		case 3:
			a := 1 + r.N(6)
			fmt.Fprintf(&b, "    uint8 %s[#%d];\n    %s %s[#%d];\n", f, a, pickS(r, "uint8", "int16", "uint32"), p.id("f_"), 8-a)
			total++
		case 4:
			ty := pickS(r, "float32", "float64", "bool")
			fmt.Fprintf(&b, "    %s %s;\n", ty, f)
			total += map[string]int{"float32": 4, "float64": 8, "bool": 1}[ty]
		case 5:
			fmt.Fprintf(&b, "    %s %s;\n", pickS(r, "string", "bytes"), f)
			dyn = true
		case 6:
			t := tInts[r.N(len(tInts))]
			n := 1 + r.N(9)
			fmt.Fprintf(&b, "    %s<%d> %s%s;\n", t.t, n, f, order())
			total += n * t.n
		case 7:
			fmt.Fprintf(&b, "    %s<%d> %s;\n", pickS(r, "string", "bytes"), 1+r.N(6), f)
			dyn = true
		case 8:
			n := 1 + r.N(3)
			fmt.Fprintf(&b, "    void[%d];\n", n)
			total += n
		case 9:
			switch r.N(4) {
			case 0:
				fmt.Fprintf(&b, "    uint8 = 0x%X;\n", r.N(256))
				total++
			case 1:
				fmt.Fprintf(&b, "    uint16 %s = %d%s;\n", f, r.N(65536), order())
				total += 2
			case 2:
				fmt.Fprintf(&b, "    int32 %s = -%d;\n", f, r.N(70000))
				total += 4
			default:
				fmt.Fprintf(&b, "    float32 %s = %d.25;\n", f, r.N(100))
				total += 4
			}
		case 10:
			if len(es) > 0 {
				e := es[r.N(len(es))]
				if r.P(30) {
					n := 1 + r.N(5)
					fmt.Fprintf(&b, "    %s<%d> %s;\n", e.name, n, f)
					total += n * e.bytes
				} else {
					fmt.Fprintf(&b, "    %s %s;\n", e.name, f)
					total += e.bytes
				}
			}
		case 11, 12:
			if len(ss) > 0 {
				t := ss[r.N(len(ss))]
				n := 1
				if r.P(30) {
					n = 1 + r.N(5)
					fmt.Fprintf(&b, "    %s<%d> %s;\n", t.name, n, f)
				} else {
					fmt.Fprintf(&b, "    %s %s;\n", t.name, f)
				}
				if t.bytes < 0 {
					dyn = true
				}
				total += n * t.bytes
				s.free = s.free && t.free
			}
		case 13:
			if len(ss) > 0 {
				t := ss[r.N(len(ss))]
				if t.free && !embedded[t.name] {
					fmt.Fprintf(&b, "    %s;\n", t.name)
					embedded[t.name] = true
					if t.bytes < 0 {
						dyn = true
					}
					total += t.bytes
					s.free = false
				}
			}
		case 14:
			a := 1 + r.N(7)
			in := p.id("Part")
			fmt.Fprintf(&b, "    struct %s {\n        bool %s[#%d];\n        uint8 %s[#%d];\n    };\n", in, p.id("f_"), a, p.id("f_"), 8-a)
			total++
			s.free = false
		case 15:
			if c.Methods {
				g := p.id("m_")
				t := pickS(r, "float64", "float32", "int32", "uint8")
				fmt.Fprintf(&b, "    uint16 %s {\n        get %s(%s): %s;\n        set %s(%s): %s;\n    };\n", f, g, t, pickS(r, "value / 10 - 40", "(value + 1) * 2", "value * 3"), g, t, pickS(r, "(value + 40) * 10", "value - 1"))
				total += 2
				s.free = false
			}
		}
	}
	if b.Len() == 0 {
		fmt.Fprintf(&b, "    uint8 %s;\n", p.id("f_"))
		total++
	}
	s.bytes = total
	size := ""
	if dyn {
		s.bytes = -1
	} else if r.P(30) {
		size = fmt.Sprintf("[%d]", total)
	}
	u.structs = append(u.structs, s)
	u.Body = append(u.Body, fmt.Sprintf("struct %s%s {\n%s};\n", s.name, size, b.String()))
}

// ---- command lines --------------------------------------------------------------

type Cmd struct {
	Target string
	Flags  []string
	Out    string // -o, as written; "" for none
	Single bool
}

var simTargets = []string{"c", "cpp", "cs", "cjs", "esm", "go", "java", "kt", "py"}

func genCmd(r *RNG, out string) Cmd {
	c := Cmd{Target: simTargets[r.N(len(simTargets))], Out: out}
	if r.P(25) {
		c.Flags = append(c.Flags, "-relpath")
	}
	if r.P(20) {
		c.Flags = append(c.Flags, "-minimal")
	}
	if r.P(20) {
		c.Flags = append(c.Flags, "-decnum")
	}
	if r.P(20) {
		c.Flags = append(c.Flags, "-memcpy")
	}
	if r.P(20) {
		c.Flags = append(c.Flags, "-compat")
	}
	if r.P(15) {
		c.Flags = append(c.Flags, "-unroll", pickS(r, "-1", "0", "2", "8"))
	}
	if r.P(15) {
		c.Flags = append(c.Flags, "-signext", pickS(r, "shift", "arith"))
	}
	if r.P(15) {
		c.Flags = append(c.Flags, "-rmpath", pickS(r, "com", "example.com", "example.com/p,org", "gen/", "app,proto"))
	}
	return c
}

func (c *Cmd) args(input string) []string {
	a := []string{"-t", c.Target}
	a = append(a, c.Flags...)
	if c.Single {
		a = append(a, "-single")
	}
	if c.Out != "" {
		a = append(a, "-o", c.Out)
	}
	return append(a, input)
}

// file gives a unit as parts.
func (u *Unit) file() TFile {
	f := TFile{Path: u.Path}
	add := func(s string) {
		if s != "" {
			f.Parts = append(f.Parts, Blob(s))
		}
	}
	add(u.Lead)
	if u.Pkg != "" {
		add(fmt.Sprintf("package %s;\n", u.Pkg))
	}
	for _, o := range u.Opts {
		add(o + "\n")
	}
	for _, im := range u.Forms {
		add(fmt.Sprintf("import %q;\n", im))
	}
	for _, d := range u.Body {
		add("\n" + d)
	}
	return f
}

func (p *Project) files() (out []TFile) {
	for _, u := range p.Units {
		out = append(out, u.file())
	}
	return
}
