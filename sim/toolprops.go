package main

import (
	"fmt"
	"path"
	"regexp"
	"strconv"
	"strings"
)

// ---- generators and checks of the tool properties ---------------------------------

func toolProps() []*toolProperty {
	return []*toolProperty{
		{ID: "T01", Eps: 2000, Gen: genT01, Check: checkT01, Rule: "A run is one project compiled once undisturbed and several times on disturbed systems. It counts when a fault was injected or the system around the program changed.", Always: true},
		{ID: "T02", Eps: 1200, Gen: genT02, Check: checkT02, Rule: "A run is an undisturbed compilation, one with failing system calls and one after the trouble is over. It counts when a fault struck."},
		{ID: "T03", Eps: 3000, Gen: genT03, Check: checkT03, Rule: "A run is one invocation that must be refused: a planted error or a source that cannot be read. All count.", Always: true},
		{ID: "T04", Eps: 1200, Gen: genT04, Check: checkT04, Rule: "A run is a sequence of killed invocations and a last one that is left alone. It counts when a process was killed."},
		{ID: "T05", Eps: 1500, Gen: genT05, Check: checkT05, Rule: "A run is one invocation, often with failing calls, among files that are not its own. All count.", Always: true},
		{ID: "T06", Eps: 900, Gen: genT06, Check: checkT06, Rule: "A run is a compilation during which sources are replaced, and one afterwards. It counts when a file changed."},
		{ID: "T07", Eps: 3000, Gen: genT07, Check: checkT07, Rule: "A run is one invocation on a generated import graph. All count.", Always: true},
		{ID: "T08", Eps: 12000, Gen: genT08, Check: checkT08, Rule: "A run is one invocation on sources a medium damaged. All count.", Always: true},
		{ID: "T10", Eps: 900, Gen: genT10, Check: checkT10, Rule: "A run is two to four invocations interleaved call by call over one output directory. It counts when their calls interleaved."},
		{ID: "T11", Eps: 1600, Gen: genT11, Check: checkT11, Rule: "A run compiles a project and the same project respelled. All count.", Always: true},
	}
}

// place is a project, an invocation and a place.
type place struct {
	p      *Project
	c      Cmd
	cwd    string
	out    string // absolute; "" is stdout
	input  string
	target string
}

func (s *place) proc() Proc {
	return Proc{Args: s.c.args(s.input), Cwd: s.cwd, Seed: 1, Clock: 1700000000000000000, Pid: 4242}
}

func outExt(target string) string {
	return map[string]string{"c": ".h", "cpp": ".hpp", "cs": ".cs", "cjs": ".js", "esm": ".js", "go": ".go", "java": ".java", "kt": ".kt", "py": ".py"}[target]
}

func genSetup(r *RNG, cfg ProjCfg, stdout int) *place {
	s := &place{}
	if cfg.Base == "" {
		cfg.Base = "/work/src"
	}
	if cfg.Max == 0 {
		cfg.Max = 4
	}
	s.p = genProject(r, cfg)
	s.choose(r, stdout)
	return s
}

// choose picks the invocation and where everything is.
func (s *place) choose(r *RNG, stdout int) {
	s.c = genCmd(r, "")
	if r.P(15) {
		s.c.Flags = append(s.c.Flags, "-inner")
	}
	if r.P(10) {
		s.c.Flags = append(s.c.Flags, "-v")
	}
	s.cwd = pickS(r, "/work", "/work", "/work/src", "/work/else")
	if !r.P(stdout) {
		s.out = pickS(r, "/work/out", "/work/out", "/work/out/a/b", "/work/gen", "/data/out", "/work/src")
		if r.P(25) && s.c.Target != "kt" && s.c.Target != "java" {
			s.c.Single = true
			s.out = pickS(r, "/work/out", "/work", "/work/out/deep") + "/gen" + outExt(s.c.Target)
		}
		s.c.Out = s.out
		if r.P(70) {
			s.c.Out, _ = relPath(s.cwd, s.out)
			if s.out == s.cwd {
				s.c.Out = "."
			}
			if s.c.Out == "" {
				s.c.Out = s.out
			}
		}
		if !s.c.Single {
			switch r.N(6) {
			case 0:
				s.c.Out += "/"
			case 1:
				s.c.Out += "/."
			case 2:
				if !strings.HasPrefix(s.c.Out, "/") {
					s.c.Out = "./" + s.c.Out
				}
			}
		}
	} else if r.P(25) && s.c.Target != "kt" && s.c.Target != "java" {
		s.c.Single = true
	}
	root := s.p.Units[s.p.Root].Path
	s.input = root
	if r.P(60) {
		s.input, _ = relPath(s.cwd, root)
		if r.P(30) && !strings.HasPrefix(s.input, "..") {
			s.input = "./" + s.input
		}
	}
}

// quiet leaves out progress messages.
func (s *place) quiet() {
	var f []string
	for _, x := range s.c.Flags {
		if x != "-v" {
			f = append(f, x)
		}
	}
	s.c.Flags = f
}

func (s *place) episode(prop string) *ToolEp {
	p := s.proc()
	return &ToolEp{Prop: prop, Files: s.p.files(), Links: s.p.Links, Dirs: []string{"/work/else", "/work/src"}, Out: s.out, Ref: &p}
}

type refRun struct {
	res  *Result
	tree map[string]string
}

// reference runs the undisturbed invocation on a clean disk.
func (t *simTool) reference(ep *ToolEp, files []TFile) *refRun {
	res, fs := t.one(ep.disk(files, false), *ep.Ref)
	r := &refRun{res: res}
	if ep.Out != "" {
		r.tree = fs.tree(ep.Out)
	}
	return r
}

// said is the diagnostic; colours depend on the terminal.
func said(r *Result) string {
	return trunc(strings.TrimSpace(ansi.ReplaceAllString(string(r.Err), "")), 500)
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func describe(r *Result) string {
	s := fmt.Sprintf("exit %d", r.Exit)
	if r.Signal != "" {
		s = r.Signal
	}
	if r.Hung {
		s = "hang"
	}
	if len(r.Rt) > 0 {
		s += "; the runtime says: " + trunc(string(r.Rt), 400)
	}
	return fmt.Sprintf("%s, stderr %q", s, said(r))
}

// broken reports what no run may do.
func broken(r *Result) *TViol {
	switch {
	case r.Hung:
		return tviol("hang", "the program does not come to an end")
	case len(r.Rt) > 0:
		return tviol("panic", "the program crashed: %s", describe(r))
	case len(r.Refused) > 0:
		return tviol("refused-call", "the program left the simulated system: %v", r.Refused)
	case r.Signal != "" && !r.Crashed:
		return tviol("signal", "the program died: %s", describe(r))
	}
	return nil
}

func (ep *ToolEp) sourcesIntact(fs *simFS, when string) *TViol {
	for i := range ep.Files {
		f := &ep.Files[i]
		w, e := fs.walk(f.Path, true)
		if e != 0 || w.n == nil {
			return tviol("source", "%s: source %s is gone", when, f.Path)
		}
		if string(w.n.data) != f.text() {
			return tviol("source", "%s: source %s was changed: %s", when, f.Path, textDiff(f.text(), string(w.n.data)))
		}
	}
	return nil
}

// ---- T01: the same input gives the same output ------------------------------------

var envNoise = []string{"HOME=/root", "HOME=/nonexistent", "LANG=tr_TR.UTF-8", "LC_ALL=C", "TZ=Asia/Kolkata", "TMPDIR=/work/tmp", "USER=x", "GOFLAGS=-mod=vendor", "TERM=dumb", "COLUMNS=20", "PATH=", "NO_COLOR=1", "PWD=/nowhere", "SOURCE_DATE_EPOCH=0"}

func disturb(r *RNG, p Proc) Proc {
	p.Seed = r.U64()
	p.Clock = int64(r.U64() >> uint(1+r.N(20)))
	p.Pid = 1 + r.N(99999)
	p.Chunk = 1 + r.U64()>>1
	for k := r.N(4); k > 0; k-- {
		p.Env = append(p.Env, envNoise[r.N(len(envNoise))])
	}
	return p
}

func genT01(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Methods: true, Fancy: true, Empty: true, Dense: 25}, 15)
	ep := s.episode("T01")
	ref := t.reference(ep, ep.Files)
	// what an older version left behind
	for _, k := range sortedKeys(ref.tree) {
		at := path.Join(ep.Out, k)
		if isSource(ep, at) || !r.P(50) {
			continue
		}
		old := ref.tree[k]
		switch r.N(6) {
		case 4:
			// of the very size of the new one
			b := []byte(old)
			for k := 1 + r.N(3); k > 0 && len(b) > 0; k-- {
				b[r.N(len(b))] ^= 1
			}
			old = string(b)
		case 5:
			// up to date already
		case 0:
			old += strings.Repeat("// old and longer\n", 1+r.N(200))
		case 1:
			old = old[:r.N(len(old)+1)]
		case 2:
			old = "garbage"
		case 3:
			old = strings.ToUpper(old) + old
		}
		ep.Pre = append(ep.Pre, TFile{at, []Blob{Blob(old)}})
	}
	if ep.Out != "" && !s.c.Single {
		ep.Pre = append(ep.Pre, TFile{path.Join(ep.Out, "notes.txt"), []Blob{"kept"}})
	}
	for k := 1 + r.N(2); k > 0; k-- {
		ep.Phases = append(ep.Phases, Phase{Procs: []Proc{disturb(r, *ep.Ref)}})
	}
	ep.Kind = "system"
	if r.P(50) && !strings.HasPrefix(ep.Out, "/data") {
		ep.Kind = "moved"
		ep.Base = [2]string{"/work", pickS(r, "/srv/other/place", "/w", "/home/ünï code/prj")}
	}
	return ep
}

func isSource(ep *ToolEp, p string) bool {
	for i := range ep.Files {
		if ep.Files[i].Path == p {
			return true
		}
	}
	return false
}

func moved(s string, b [2]string) string {
	if b[0] == "" {
		return s
	}
	return strings.ReplaceAll(s, b[0], b[1])
}

func (ep *ToolEp) moved() *ToolEp {
	c := ep.copy()
	b := ep.Base
	for _, fs := range [][]TFile{c.Files, c.Pre} {
		for i := range fs {
			fs[i].Path = moved(fs[i].Path, b)
			for j := range fs[i].Parts {
				fs[i].Parts[j] = Blob(moved(string(fs[i].Parts[j]), b))
			}
		}
	}
	for i := range c.Dirs {
		c.Dirs[i] = moved(c.Dirs[i], b)
	}
	c.Out = moved(c.Out, b)
	for i := range c.Phases {
		for j := range c.Phases[i].Procs {
			p := &c.Phases[i].Procs[j]
			p.Cwd = moved(p.Cwd, b)
			for k := range p.Args {
				p.Args[k] = moved(p.Args[k], b)
			}
		}
	}
	return c
}

func checkT01(t *simTool, ep *ToolEp) *TViol {
	ref := t.reference(ep, ep.Files)
	if v := broken(ref.res); v != nil {
		return v
	}
	if ref.res.Exit != 0 {
		return tviol("refused", "a valid project is refused: %s", describe(ref.res))
	}
	want := map[string]string{}
	for k, v := range ref.tree {
		want[k] = v
	}
	for i := range ep.Pre {
		k := strings.TrimPrefix(strings.TrimPrefix(ep.Pre[i].Path, ep.Out), "/")
		if _, ok := want[k]; !ok {
			want[k] = ep.Pre[i].text()
		}
	}
	e2 := ep
	back := func(s string) string { return s }
	if ep.Base[0] != "" {
		e2 = ep.moved()
		back = func(s string) string { return moved(s, [2]string{ep.Base[1], ep.Base[0]}) }
	}
	for i := range e2.Phases {
		pr, fs := t.phase(e2.disk(e2.Files, true), &e2.Phases[i])
		x := pr.Res[0]
		if v := broken(x); v != nil {
			return v
		}
		t.st.checks++
		if x.Exit != 0 {
			return tviol("fails-elsewhere", "the same project and invocation fail on another system: %s", describe(x))
		}
		if g, w := back(string(x.Out)), string(ref.res.Out); g != w {
			return tviol("stdout-varies", "standard output of the same invocation varies with the system: %s", textDiff(w, g))
		}
		if g, w := ansi.ReplaceAllString(back(string(x.Err)), ""), ansi.ReplaceAllString(string(ref.res.Err), ""); g != w {
			return tviol("stderr-varies", "diagnostics of the same invocation vary with the system: %s", textDiff(w, g))
		}
		if ep.Out == "" {
			continue
		}
		w := want
		if ep.Base[0] != "" && ep.Out == "/work/src" {
			// the sources lie among the outputs and were rewritten with the move
			w = map[string]string{}
			for k, v := range want {
				w[k] = v
			}
			for j := range e2.Files {
				w[strings.TrimPrefix(strings.TrimPrefix(e2.Files[j].Path, e2.Out), "/")] = e2.Files[j].text()
			}
		}
		if d := treeDiff(w, fs.tree(e2.Out), false); d != "" {
			return tviol("output-varies", "the output of the same project and invocation depends on the system it runs on: %s", d)
		}
	}
	return nil
}

// ---- T02: failing system calls -----------------------------------------------------

var faultsOf = map[string][]string{
	"create":   {"EACCES", "EROFS", "EMFILE", "ENFILE", "ENOSPC", "EDQUOT", "EIO", "EPERM", "ETXTBSY", "ENOMEM"},
	"write":    {"ENOSPC", "EIO", "EDQUOT", "EFBIG"},
	"closew":   {"EIO", "ENOSPC", "EDQUOT"},
	"mkdir":    {"ENOSPC", "EACCES", "EROFS", "EDQUOT", "EIO"},
	"stat":     {"EIO", "EACCES", "ESTALE"},
	"open":     {"EACCES", "EIO", "EMFILE", "ENFILE", "ESTALE", "ENOMEM"},
	"read":     {"EIO", "ESTALE"},
	"fstat":    {"EIO"},
	"closer":   {"EIO"},
	"getcwd":   {"ENOENT", "EACCES"},
	"lstat":    {"EIO", "EACCES"},
	"getdents": {"EIO"},
	"readlink": {"EIO"},
	"rename":   {"ENOSPC", "EIO", "EROFS"},
	"unlink":   {"EIO", "EROFS"},
	"fsync":    {"EIO", "ENOSPC"},
	"chmod":    {"EPERM", "EROFS"},
}

// opClass says what kind of call an operation was.
func opClasses(ops []*opRec) []string {
	out := make([]string, len(ops))
	wr := map[string]bool{}
	for i, o := range ops {
		c := o.Name
		switch o.Name {
		case "open":
			wr[o.Path] = false
			// a file opened for writing is written or closed without reading
			for _, q := range ops[i+1:] {
				if q.Path == o.Path {
					if q.Name == "write" {
						wr[o.Path] = true
					}
					if q.Name == "read" || q.Name == "write" || q.Name == "close" {
						break
					}
				}
			}
			if wr[o.Path] {
				c = "create"
			}
		case "close":
			c = "closer"
			if wr[o.Path] {
				c = "closew"
			}
		}
		out[i] = c
	}
	return out
}

// genFaults strikes calls of a run whose undisturbed form is known.
func genFaults(r *RNG, ref *Result, only func(class string) bool) (out []OpFault) {
	cls := opClasses(ref.Ops)
	by := map[string][]int{}
	for i, c := range cls {
		if ref.Ops[i].Path == "<2>" {
			continue
		}
		if faultsOf[c] != nil && only(c) {
			by[c] = append(by[c], i)
		}
	}
	names := sortedKeys(by)
	if len(names) == 0 {
		return nil
	}
	for k := 1 + r.N(3)/2; k > 0; k-- {
		c := names[r.N(len(names))]
		i := by[c][r.N(len(by[c]))]
		f := OpFault{Op: i + 1, Err: faultsOf[c][r.N(len(faultsOf[c]))]}
		if c == "write" {
			if r.P(60) && ref.Ops[i].N > 1 {
				f.N = 1 + r.N(int(ref.Ops[i].N)-1)
			}
			if r.P(15) {
				f.Err = "short"
				f.N = 1 + r.N(int(ref.Ops[i].N))
			}
		}
		if r.P(30) && f.Err != "short" {
			f.Sticky = true
		}
		out = append(out, f)
	}
	return out
}

func genT02(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Methods: true, Fancy: true, Empty: true, Dense: 25}, 20)
	s.quiet()
	ep := s.episode("T02")
	ref := t.reference(ep, ep.Files)
	ep.Kind = "files"
	if ep.Out == "" {
		ep.Kind = "stdout"
	} else if s.c.Single {
		ep.Kind = "single"
	}
	outs := func(c string) bool {
		return c == "write" || c == "create" || c == "closew" || c == "mkdir" || c == "rename" || c == "fsync"
	}
	only := outs
	if r.P(25) {
		only = func(string) bool { return true }
	}
	p := *ep.Ref
	p.Faults = genFaults(r, ref.res, only)
	ep.Phases = append(ep.Phases, Phase{Procs: []Proc{p}})
	if r.P(40) {
		// what was there before
		for _, k := range sortedKeys(ref.tree) {
			at := path.Join(ep.Out, k)
			if !isSource(ep, at) && r.P(40) {
				ep.Pre = append(ep.Pre, TFile{at, []Blob{Blob(ref.tree[k] + "// old\n")}})
			}
		}
	}
	return ep
}

func checkT02(t *simTool, ep *ToolEp) *TViol {
	ref := t.reference(ep, ep.Files)
	if v := broken(ref.res); v != nil {
		return v
	}
	if ref.res.Exit != 0 {
		return tviol("refused", "a valid project is refused: %s", describe(ref.res))
	}
	pr, fs := t.phase(ep.disk(ep.Files, true), &ep.Phases[0])
	x := pr.Res[0]
	t.st.checks++
	struck := ""
	for _, o := range x.Ops {
		if o.Fault != "" {
			struck += "; " + o.String()
		}
	}
	if v := broken(x); v != nil {
		v.Msg += " (after" + struck + ")"
		return v
	}
	if x.Exit == 0 {
		if string(x.Out) != string(ref.res.Out) {
			return tviol("lost-stdout", "success is reported although standard output was not delivered%s: %s", struck, textDiff(string(ref.res.Out), string(x.Out)))
		}
		if ep.Out != "" {
			if d := treeDiff(ref.tree, fs.tree(ep.Out), true); d != "" {
				return tviol("lost-output", "success is reported although the output is not what it should be%s: %s", struck, d)
			}
		}
	} else {
		if x.Exit != 1 {
			return tviol("exit", "a failing system call ends the program with status %d, not 1%s", x.Exit, struck)
		}
		if x.Harmful+x.LateErr == 0 {
			return tviol("gives-up", "the program fails although every call succeeded in the end%s: %s", struck, describe(x))
		}
		if strings.TrimSpace(said(x)) == "" && x.LateErr == 0 {
			return tviol("silent", "the program fails without a word%s", struck)
		}
	}
	if v := ep.sourcesIntact(fs, "after a failed call"); v != nil {
		return v
	}
	if v := contained(x, ep, fs); v != nil {
		return v
	}
	// the trouble is over
	y, fs := t.one(fs, *ep.Ref)
	if y.Exit != 0 || string(y.Out) != string(ref.res.Out) {
		return tviol("no-recovery", "after a failed run%s the same invocation does not succeed: %s", struck, describe(y))
	}
	if ep.Out != "" {
		if d := treeDiff(ref.tree, fs.tree(ep.Out), true); d != "" {
			return tviol("no-recovery", "after a failed run%s the same invocation does not give the right output: %s", struck, d)
		}
	}
	return nil
}

// contained checks where a run left traces.
func contained(x *Result, ep *ToolEp, fs *simFS) *TViol {
	root := ep.Out
	if root != "" {
		if f, e := fs.walk(root, true); e == 0 && f.n != nil {
			root = f.real
		} else if f, e := fs.walk(path.Dir(root), true); e == 0 && f.n != nil {
			root = path.Join(f.real, path.Base(root))
		}
	}
	for i, m := range x.Muts {
		if root == "" {
			return tviol("escapes", "without -o the program changes the disk: %s %s", x.Kinds[i], m)
		}
		if m == root || strings.HasPrefix(m, strings.TrimSuffix(root, "/")+"/") {
			continue
		}
		if x.Kinds[i] == "mkdir" && (strings.HasPrefix(root, m+"/") || strings.HasPrefix(ep.Out, m+"/")) {
			continue
		}
		return tviol("escapes", "the program changes something outside %s: %s %s", ep.Out, x.Kinds[i], m)
	}
	return nil
}

// ---- T03: what must be refused is refused before anything is written ------------------

// planted is a definition no valid file contains. %S and %T are fresh type names,
// %f and %g fresh field names, %V a fresh value name.
var planted = []struct{ kind, text string }{
	{"unknown type", "struct %S { %T %f; };"},
	{"unknown type in array", "struct %S { %T<3> %f; };"},
	{"unknown embed", "struct %S { %T; uint8 %f; };"},
	{"duplicate struct", "struct %S { uint8 %f; }; struct %S { uint8 %g; };"},
	{"enum and struct of one name", "enum %S[1] { %V = 1, }; struct %S { uint8 %f; };"},
	{"duplicate field", "struct %S { uint8 %f; uint16 %f; };"},
	{"duplicate value", "enum %S[1] { %V = 1, %V = 2, };"},
	{"value names a type", "struct %V { uint8 %f; }; enum %S[1] { %V = 1, };"},
	{"declared size too small", "struct %S[1] { uint8 %f; uint8 %g; };"},
	{"declared size too large", "struct %S[3] { uint8 %f; uint8 %g; };"},
	{"size on a dynamic struct", "struct %S[3] { string %f; };"},
	{"width above type", "struct %S { uint8 %f[2]; };"},
	{"width above bool", "struct %S { bool %f[2]; };"},
	{"bit width above type", "struct %S { uint8 %f[#9]; uint8 %g[#7]; };"},
	{"struct name in lower case", "struct lower { uint8 %f; };"},
	{"field name in upper case", "struct %S { uint8 UPPER; };"},
	{"enum name in lower case", "enum lower[1] { %V = 1, };"},
	{"value name in lower case", "enum %S[1] { lower = 1, };"},
	{"constant name in upper case", "struct %S { uint8 UPPER = 3; };"},
	{"unknown byte order", "struct %S { uint16 %f [order = \"middle\"]; };"},
	{"byte order of wrong type", "struct %S { uint16 %f [order = 3]; };"},
	{"negative constant", "struct %S { uint8 %f = -1; };"},
	{"text constant for a number", "struct %S { uint8 %f = \"s\"; };"},
	{"float constant for an integer", "struct %S { uint8 %f = 1.5; };"},
	{"unknown constant", "struct %S { uint8 %f = %V; };"},
	{"embedded basic type", "struct %S { uint8; };"},
	{"embedded twice", "struct %T { uint8 %f; }; struct %S { %T; %T; };"},
	{"embedding clashes", "struct %T { uint8 %f; }; struct %S { %T; uint8 %f; };"},
	{"accessor named as a field", "struct %S { uint8 %g; uint8 %f { get %g(uint8): value; }; };"},
	{"accessor named as its field", "struct %S { uint8 %f { get %f(uint8): value; }; };"},
	{"accessors of different types", "struct %S { uint8 %f { get %g(uint8): value; set %g(uint16): value; }; };"},
	{"accessor twice", "struct %S { uint8 %f { get %g(uint8): value; get %g(uint8): value; }; };"},
	{"accessor of text", "struct %S { string %f { get %g(uint8): value; }; };"},
	{"no semicolon", "struct %S { uint8 %f }"},
	{"open brace", "struct %S { uint8 %f;"},
	{"stray character", "struct %S { uint8 %f; }; @"},
	{"stray word", "strukt %S { uint8 %f; };"},
	{"unterminated comment", "struct %S { uint8 %f; }; /* never ends"},
	{"unaligned text", "struct %S { uint8 %f[#3]; string %g; };"},
	{"unaligned dynamic struct", "struct %T { string %f; }; struct %S { uint8 %g[#3]; %T f_t; };"},
	{"padding of no width", "struct %S { void[0]; uint8 %f; };"},
	{"field of no width", "struct %S { uint8 %f[0]; };"},
	{"array of nothing", "struct %S { uint8<0> %f; };"},
	{"narrowed struct", "struct %T { uint16 %f; }; struct %S { %T %g[1]; };"},
	{"recursive struct", "struct %S { uint8 %f; %S %g; };"},
	{"literal too large", "struct %S { uint64 %f = 0x1FFFFFFFFFFFFFFFF; };"},
	{"enum without width", "enum %S { %V = 1, };"},
	{"enum of no width", "enum %S[0] { %V = 1, };"},
	{"empty struct", "struct %S { };"},
	{"empty enum", "enum %S[1] { };"},
	{"use before definition", "struct %S { %T %f; }; struct %T { uint8 %g; };"},
	{"not whole bytes", "struct %S { uint8 %f[#4]; };"},
	{"negative enum value", "enum %S[1] { %V = -1, };"},
	{"negative enum value", "enum %S[2] { VAL_A%n = 3, %V = -7, };"},
	{"enum wider than 8 bytes", "enum %S[9] { %V = 1, };"},
	{"enum wider than 8 bytes", "enum %S[8#1] { %V = 1, };"},
	{"enum value too large", "enum %S[1] { %V = 256, };"},
	{"enum value too large", "enum %S[#3] { %V = 8, };"},
	{"enum value too large", "enum %S[5] { %V = 0x10000000000, };"},
	{"enum value counted too far", "enum %S[1] { VAL_A%n = 255, %V, };"},
	{"enum value counted too far", "enum %S[8] { VAL_A%n = 0x7FFFFFFFFFFFFFFF, %V, };"},
	{"size beyond 64 bits", "struct %S { uint8 %f[2305843009213693953]; };"},
	{"size beyond 64 bits", "struct %S { void[2305843009213693952]; uint8 %f; };"},
	{"size beyond 64 bits", "struct %S { void[1152921504606846975#9223372036854775807]; };"},
	{"array beyond 64 bits", "struct %S { uint64<1000000000000000000> %f; };"},
	{"array beyond 64 bits", "struct %T { uint64<100000000> %g; }; struct %S { %T<100000000000> %f; };"},
	{"sum beyond 64 bits", "struct %S { void[1000000000000000000]; void[1000000000000000000]; uint8 %f; };"},
	{"narrowed structs", "struct %T { uint16 %f; }; struct %S { %T<4> %g[4]; };"},
	{"constant too large", "struct %S { uint8 %f = 256; };"},
	{"constant too large", "struct %S { int16 %f = -32769; };"},
	{"constant too large", "struct %S { uint32 %f[#9] = 512; void[#7]; };"},
	{"constant too large", "struct %S { float32 %f = 1e39; };"},
	{"constant too large", "enum %S[2] { %V = 700, }; struct %T { uint8 %f = %V; };"},
	{"width on text", "struct %S { string %f[3]; };"},
	{"width on bytes", "struct %S { bytes %f[3]; };"},
	{"array width not shared evenly", "struct %S { uint8<3> %f[#20]; uint8 %g[#4]; };"},
	{"width above array", "struct %S { uint8<3> %f[4]; };"},
	{"accessor name in upper case", "struct %S { uint8 %f { get Upper(uint8): value; }; };"},
	{"accessor without a name", "struct %S { uint8 %f { get(uint8): value; }; };"},
	{"accessor of an array", "struct %S { uint8<3> %f { get %g(uint8): value; }; };"},
	{"accessor of bytes", "struct %S { bytes %f { set %g(uint8): value; }; };"},
	{"accessor of an enum", "enum %T[1] { %V = 1, }; struct %S { %T %f { get %g(uint8): value; }; };"},
	{"accessor without an expression", "struct %S { uint8 %f { get %g(uint8): ; }; };"},
	{"accessor of half an expression", "struct %S { uint8 %f { get %g(uint8): value + ; }; };"},
	{"accessor over another field", "struct %S { uint8 %g; uint8 %f { get acc_of_%f(uint8): %g; }; };"},
	{"accessor of two fields", "struct %S { uint8 %f { get acc_of_%f(uint8): value; }; uint8 %g { get acc_of_%f(uint8): value; }; };"},
	{"field named as an accessor before it", "struct %S { uint8 %f { get %g(uint8): value; }; uint8 %g; };"},
	{"text as an enum value", "enum %S[1] { %V = \"x\", };"},
	{"fraction as an enum value", "enum %S[1] { %V = 1.5, };"},
	{"truth as an enum value", "enum %S[1] { %V = true, };"},
	{"unknown enum value", "enum %S[1] { VAL_A%n = %V, };"},
	{"constant wider than its type", "struct %S { uint8 %f[2] = 3; };"},
	{"number as a truth constant", "struct %S { bool %f = 1; void[#7]; };"},
	{"truth as a number", "struct %S { uint8 %f = true; };"},
	{"integer as a fraction", "struct %S { float32 %f = 3; };"},
	{"constant text", "struct %S { string %f = \"abc\"; };"},
	{"embedded enum", "enum %T[1] { %V = 1, }; struct %S { %T; };"},
	{"embedded array", "struct %T { uint8 %f; }; struct %S { %T<3>; };"},
	{"embedded text", "struct %S { string; uint8 %f; };"},
	{"byte order twice", "struct %S { uint16 %f [order = \"big\", order = \"big\"]; };"},
	{"values without a comma", "enum %S[1] { %V = 1 VAL_A%n = 2 };"},
	{"negative width", "struct %S { uint8 %f[-1]; };"},
	{"negative length", "struct %S { uint8<-1> %f; };"},
	{"struct inside used after it", "struct %S { struct %T { uint8 %f; } %g; %T %f; };"},
	{"second package", "package second.one;"},
	{"option twice", "option omit_empty = false; option omit_empty = true;"},
	{"option of wrong type", "option omit_empty = 3;"},
	{"option of wrong type", "option go_package = true;"},
	{"missing import", "import \"no_such_file.bb\";"},
	{"missing import", "import \"/nowhere/x.bb\";"},
	{"import of a directory", "import \".\";"},
	{"duplicate struct in another file", "struct %I { uint8 %f; };"},
	{"value of another file", "enum %S[1] { %J = 1, };"},
}

func plant(p *Project, u *Unit, r *RNG, tpl string) (string, bool) {
	s := tpl
	for _, w := range []struct{ k, pre string }{{"%S", "Bad"}, {"%T", "Bad"}, {"%f", "f_"}, {"%g", "f_"}, {"%V", "VAL_"}, {"%n", ""}} {
		s = strings.ReplaceAll(s, w.k, p.id(w.pre))
	}
	if strings.Contains(s, "%I") {
		for _, i := range u.Imports {
			for _, st := range p.Units[i].structs {
				return strings.ReplaceAll(s, "%I", st.name), true
			}
		}
		return "", false
	}
	if strings.Contains(s, "%J") {
		for _, i := range u.Imports {
			for _, e := range p.Units[i].enums {
				return strings.ReplaceAll(s, "%J", e.vals[0]), true
			}
		}
		return "", false
	}
	return s, true
}

// reachable units from the root, by the import edges.
func (p *Project) reachable() []int {
	seen := map[int]bool{}
	var out []int
	var rec func(i int)
	rec = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		out = append(out, i)
		for _, j := range p.Units[i].Imports {
			rec(j)
		}
	}
	rec(p.Root)
	return out
}

func genT03(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Methods: true, Fancy: true, Empty: true, Dense: 35}, 15)
	reach := s.p.reachable()
	u := s.p.Units[reach[r.N(len(reach))]]
	var ep *ToolEp
	switch k := r.N(20); {
	case k < 14:
		pl := planted[r.N(len(planted))]
		if s.c.Target == "kt" && r.P(15) {
			// valid, but documented as more than Kotlin can express
			pl.kind, pl.text = "accessor Kotlin lacks", "struct %S { uint8 %f { set acc_of_%f(uint8): value; }; };"
		}
		body, ok := plant(s.p, u, r, pl.text)
		if !ok {
			pl = planted[r.N(30)]
			body, ok = plant(s.p, u, r, pl.text)
			if !ok {
				panic("plant")
			}
		}
		at := r.N(len(u.Body) + 1)
		u.Body = append(u.Body[:at:at], append([]string{body + "\n"}, u.Body[at:]...)...)
		ep = s.episode("T03")
		ep.Kind = pl.kind
		ep.Names = []string{u.Path}
		ep.Keep = []Blob{Blob(body)}
	case k < 15:
		u.Pkg = ""
		ep = s.episode("T03")
		ep.Kind = "no package"
		ep.Names = []string{u.Path}
	case k < 18:
		// a source that cannot be read
		ep = s.episode("T03")
		ref := t.reference(ep, ep.Files)
		ep.Kind = "unreadable source"
		cls := opClasses(ref.res.Ops)
		var at []int
		for i, o := range ref.res.Ops {
			if isSource(ep, o.Path) && (cls[i] == "stat" || cls[i] == "open" || cls[i] == "read" && (o.N > 0 || r.P(50))) {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[r.N(len(at))]
			fs := faultsOf[cls[i]]
			p := *ep.Ref
			p.Faults = []OpFault{{Op: i + 1, Err: fs[r.N(len(fs))]}}
			ep.Ref = &p
			ep.Names = []string{ref.res.Ops[i].Path, path.Base(ref.res.Ops[i].Path)}
		} else {
			ep.Ref.Args = append(ep.Ref.Args[:len(ep.Ref.Args)-1:len(ep.Ref.Args)-1], "/work/none.bb")
			ep.Names = []string{"none.bb"}
		}
	default:
		ep = s.episode("T03")
		n := len(ep.Ref.Args)
		a := append([]string(nil), ep.Ref.Args...)
		switch r.N(8) {
		case 0:
			ep.Kind, a[1] = "unknown target", pickS(r, "rust", "C", "cplusplus", "golang", "")
		case 1:
			ep.Kind, a = "bad -signext", append([]string{"-signext", pickS(r, "none", "shif", "logical")}, dropFlag(a, "-signext")...)
		case 2:
			ep.Kind, a = "bad -unroll", append([]string{"-unroll", pickS(r, "-2", "-100")}, dropFlag(a, "-unroll")...)
		case 3:
			ep.Kind, a = "two inputs", append(a, a[n-1])
		case 4:
			ep.Kind, a = "no input", a[:n-1]
		case 5:
			ep.Kind, a[n-1] = "no such input", "/work/none.bb"
			ep.Names = []string{"none.bb"}
		case 6:
			ep.Kind, a[n-1] = "input is a directory", "/work/src"
			ep.Names = []string{"/work/src"}
		case 7:
			ep.Kind, a = "no target", a[2:]
		}
		ep.Ref.Args = a
	}
	if r.P(50) && ep.Out != "" && !s.c.Single {
		ep.Pre = append(ep.Pre, TFile{path.Join(ep.Out, "keep.txt"), []Blob{"kept"}})
	}
	return ep
}

func dropFlag(a []string, f string) []string {
	var out []string
	for i := 0; i < len(a); i++ {
		if a[i] == f {
			i++
			continue
		}
		out = append(out, a[i])
	}
	return out
}

func checkT03(t *simTool, ep *ToolEp) *TViol {
	x, fs := t.one(ep.disk(ep.Files, true), *ep.Ref)
	t.st.checks++
	if v := broken(x); v != nil {
		v.Msg = ep.Kind + ": " + v.Msg
		return v
	}
	if len(ep.Ref.Faults) > 0 && x.Harmful == 0 {
		return nil // the fault found nothing to strike
	}
	if x.Exit == 0 {
		return tviol("accepted", "%s: accepted, stderr %q", ep.Kind, said(x))
	}
	if x.Exit != 1 {
		return tviol("exit", "%s: exit status %d, not 1 (%s)", ep.Kind, x.Exit, describe(x))
	}
	if len(x.Muts) > 0 {
		return tviol("partial", "%s: refused (%s) after %s %s", ep.Kind, said(x), x.Kinds[0], x.Muts[0])
	}
	verbose := false
	for _, a := range ep.Ref.Args {
		verbose = verbose || a == "-v"
	}
	if len(x.Out) > 0 && !verbose {
		return tviol("partial", "%s: refused (%s) after writing to standard output: %q", ep.Kind, said(x), trunc(string(x.Out), 100))
	}
	if said(x) == "" {
		return tviol("silent", "%s: refused without a word", ep.Kind)
	}
	if len(ep.Names) > 0 {
		ok := false
		for _, n := range ep.Names {
			ok = ok || strings.Contains(string(x.Err), n)
		}
		if !ok {
			return tviol("unnamed", "%s: the diagnostic does not name the file %v: %q", ep.Kind, ep.Names, said(x))
		}
	}
	if len(ep.Keep) > 0 {
		if m := misplaced(ep, string(x.Err)); m != "" {
			return tviol("misplaced", "%s: no position the diagnostic gives lies in the offending text %q:%s: %q", ep.Kind, ep.Keep[0], m, said(x))
		}
	}
	return ep.sourcesIntact(fs, ep.Kind)
}

// misplaced says where a diagnostic points that gives no place in the planted text
// (file:line:column). Which place in it is the program's choice.
func misplaced(ep *ToolEp, err string) string {
	name := ep.Names[0]
	for i := range ep.Files {
		if ep.Files[i].Path != name {
			continue
		}
		txt := ep.Files[i].text()
		lo := strings.Index(txt, string(ep.Keep[0]))
		if lo < 0 {
			return ""
		}
		hi := lo + len(ep.Keep[0])
		lines := strings.SplitAfter(txt, "\n")
		re := regexp.MustCompile(regexp.QuoteMeta(name) + `:(\d+):(\d+)`)
		got := ""
		for _, m := range re.FindAllStringSubmatch(err, -1) {
			l, _ := strconv.Atoi(m[1])
			c, _ := strconv.Atoi(m[2])
			at := c - 1
			for k := 0; k < l-1 && k < len(lines); k++ {
				at += len(lines[k])
			}
			// an unclosed brace may be noticed at any later place
			if at >= lo && (at <= hi || ep.Kind == "open brace") && l >= 1 && l <= len(lines) {
				return ""
			}
			got += fmt.Sprintf(" %d:%d = %d not in %d-%d", l, c, at, lo, hi)
		}
		if got == "" {
			return " none"
		}
		return got
	}
	return ""
}

// ---- T04: killed at any moment -------------------------------------------------------

func genT04(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Methods: true, Fancy: true, Empty: true, Dense: 25}, 0)
	ep := s.episode("T04")
	ref := t.reference(ep, ep.Files)
	ep.Kind = "process"
	if r.P(40) {
		for _, k := range sortedKeys(ref.tree) {
			at := path.Join(ep.Out, k)
			if !isSource(ep, at) && r.P(60) {
				ep.Pre = append(ep.Pre, TFile{at, []Blob{Blob(ref.tree[k] + strings.Repeat("// an older, longer version\n", r.N(30)))}})
			}
		}
	}
	cls := opClasses(ref.res.Ops)
	var late []int
	for i, c := range cls {
		if c == "create" || c == "write" || c == "closew" || c == "mkdir" || c == "rename" {
			late = append(late, i)
		}
	}
	for k := 1 + r.N(3); k > 0; k-- {
		p := *ep.Ref
		i := r.N(len(cls))
		if r.P(80) && len(late) > 0 {
			i = late[r.N(len(late))]
		}
		p.Crash = i + 1
		p.After = r.P(50)
		if cls[i] == "write" && r.P(50) && ref.res.Ops[i].N > 0 {
			p.Torn = 1 + r.N(int(ref.res.Ops[i].N))
		}
		if r.P(45) {
			p.Machine, p.CSeed = true, r.U64()
			ep.Kind = "machine"
		}
		if r.P(20) {
			p.Crash, p.Faults = 0, genFaults(r, ref.res, func(string) bool { return true })
		}
		ep.Phases = append(ep.Phases, Phase{Procs: []Proc{p}})
	}
	return ep
}

func checkT04(t *simTool, ep *ToolEp) *TViol {
	ref := t.reference(ep, ep.Files)
	if v := broken(ref.res); v != nil {
		return v
	}
	if ref.res.Exit != 0 {
		return tviol("refused", "a valid project is refused: %s", describe(ref.res))
	}
	fs := ep.disk(ep.Files, true)
	how := ""
	for i := range ep.Phases {
		var pr *PhaseResult
		pr, fs = t.phase(fs, &ep.Phases[i])
		x := pr.Res[0]
		for _, o := range x.Ops {
			if o.Fault != "" {
				how += "; " + o.String()
			}
		}
		if !x.Crashed {
			if v := broken(x); v != nil {
				return v
			}
		}
		if v := contained(x, ep, fs); v != nil {
			return v
		}
		if v := ep.sourcesIntact(fs, "after"+how); v != nil {
			return v
		}
	}
	y, fs := t.one(fs, *ep.Ref)
	t.st.checks++
	if v := broken(y); v != nil {
		return v
	}
	if y.Exit != 0 {
		return tviol("no-recovery", "after%s the next run fails: %s", how, describe(y))
	}
	if d := treeDiff(ref.tree, fs.tree(ep.Out), true); d != "" {
		return tviol("no-recovery", "after%s the next run does not give the right output: %s", how, d)
	}
	return ep.sourcesIntact(fs, "after"+how)
}

// ---- T05: nothing but its own output -------------------------------------------------

func genT05(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Methods: true, Fancy: true, Empty: true, Dense: 30}, 12)
	ep := &ToolEp{}
	kind := "plain"
	switch r.N(4) {
	case 0:
		// package options that wander about
		kind = "wandering package"
		s.c.Target = "go"
		s.c.Single = s.c.Single && strings.HasSuffix(s.out, "/x")
		if s.out != "" {
			s.out = "/work/out/a/b"
			s.c.Out = s.out
		}
		for _, u := range s.p.Units {
			if r.P(60) {
				var o []string
				for _, x := range u.Opts {
					if !strings.Contains(x, "go_package") {
						o = append(o, x)
					}
				}
				u.Opts = append(o, fmt.Sprintf("option go_package = %q;", pickS(r, "../", "../../", "a/../../", "/abs/", "x/./y/", "../../../../../", "a/..//../../", "/../")+fmt.Sprintf("p%d", s.p.n)))
				s.p.n++
			}
		}
		if r.P(40) {
			s.c.Flags = append(dropFlag(s.c.Flags, "-rmpath"), "-rmpath", pickS(r, "a", "x", "x/./", "a/..", "/abs", ".."))
		}
	case 1:
		// prefixes taken off
		kind = "removed prefix"
		s.c.Flags = append(dropFlag(s.c.Flags, "-rmpath"), "-rmpath", pickS(r, "com,org,app,proto,dev", "com/", "com,org", "example.com", "a,b", "com.,org", "j,k,com/j"))
	case 2:
		kind = "linked output"
	}
	ep = s.episode("T05")
	ep.Kind = kind
	if kind == "linked output" && !s.c.Single && ep.Out != "" && ep.Out != "/work/src" {
		ep.Links = map[string]string{ep.Out: pickS(r, "/data/real", "/work/real")}
		ep.Dirs = append(ep.Dirs, "/data/real", "/work/real")
	}
	ref := t.reference(ep, ep.Files)
	// other people's files around it
	for _, d := range []string{"/work", "/work/src", "/work/else", "/work/src/lib", "/data", "/etc"} {
		if r.P(50) {
			ep.Pre = append(ep.Pre, TFile{d + "/" + pickS(r, "README.md", "a.bb", "x.h", "passwd", "main.go"), []Blob{"somebody's " + Blob(d)}})
		}
	}
	for k := r.N(4); k > 0 && ep.Out != "" && !s.c.Single && ep.Kind != "linked output"; k-- {
		n := pickS(r, "other.bb.h", "x.bb.c", "user.py", "com/mine.go", "app/Old.java", ".gitignore", "com/x.bb.js")
		if _, ok := ref.tree[n]; !ok {
			ep.Pre = append(ep.Pre, TFile{path.Join(ep.Out, n), []Blob{"not generated"}})
		}
	}
	// files whose names resemble those of outputs
	var outs []string
	for _, k := range sortedKeys(ref.tree) {
		outs = append(outs, path.Join(ep.Out, k))
	}
	if ep.Kind != "linked output" && ep.Out != "" && len(outs) > 0 {
		for k := r.N(5); k > 0; k-- {
			n := outs[r.N(len(outs))]
			dir, base := path.Split(n)
			stem, _, _ := strings.Cut(base, ".")
			ext := path.Ext(base)
			switch r.N(9) {
			case 0:
				n += pickS(r, "~", ".orig", ".tmp", ".bak", ".new", ".lock", ".swp", ".part")
			case 1:
				n = dir + "." + base + pickS(r, "", ".tmp", ".swp")
			case 2:
				n = dir + stem + pickS(r, "", ".bb", ".txt", ".json", "_test"+ext, ".h", ".hpp", ".d.ts", ".js")
			case 3:
				n = dir + stem + pickS(r, "2", "_old", "_", "-1") + strings.TrimPrefix(base, stem)
			case 4:
				n = dir + strings.ToUpper(base[:1]) + strings.ToLower(base[1:])
			case 5:
				n = dir + pickS(r, "tmp", "old", "index", "__init__", "mod") + ext
			case 6:
				n = strings.TrimSuffix(n, ext)
			case 7:
				n = dir + "removed" + strings.TrimPrefix(base, stem)
			case 8:
				n = path.Join(path.Dir(path.Clean(dir)), "sibling", base)
			}
			at := n
			clash := isSource(ep, at) || at == ep.Out || strings.HasPrefix(ep.Out, at+"/")
			for _, o := range outs {
				// neither an output nor in the place of an output's directory
				if o == n || strings.HasPrefix(o, n+"/") {
					clash = true
				}
			}
			for i := range ep.Pre {
				q := ep.Pre[i].Path
				if q == at || strings.HasPrefix(q, at+"/") || strings.HasPrefix(at, q+"/") {
					clash = true
				}
			}
			for _, d := range ep.Dirs {
				if d == at || strings.HasPrefix(d, at+"/") {
					clash = true
				}
			}
			for i := range ep.Files {
				if strings.HasPrefix(ep.Files[i].Path, at+"/") {
					clash = true
				}
			}
			if !clash {
				ep.Pre = append(ep.Pre, TFile{at, []Blob{"not generated either: " + Blob(n)}})
			}
		}
	}
	p := *ep.Ref
	if kind != "linked output" && ep.Out != "" && len(outs) > 0 && r.P(15) {
		obstruct(ep, outs[r.N(len(outs))], r)
	}
	if r.P(30) {
		p.Faults = genFaults(r, ref.res, func(string) bool { return true })
	}
	ep.Phases = []Phase{{Procs: []Proc{p}}}
	return ep
}

// obstruct puts a file of somebody else where an output's directory has to be,
// or a directory with such a file where the output has to be.
func obstruct(ep *ToolEp, out string, r *RNG) {
	at := out
	switch {
	case r.P(50):
		at = path.Join(out, pickS(r, "theirs.txt", "a/b.c"))
	case r.P(70) && path.Dir(out) != "/" && path.Dir(out) != ep.Out:
		at = path.Dir(out)
		if d := path.Dir(at); d != ep.Out && strings.HasPrefix(d, ep.Out+"/") && r.P(30) {
			at = d
		}
	case strings.HasPrefix(ep.Out, "/work/out") || strings.HasPrefix(ep.Out, "/data"):
		if at == ep.Out {
			at = path.Dir(out)
		} else {
			at = ep.Out
		}
	}
	if at == out || at == "/work" || at == "/data" || at == "/" {
		return
	}
	under := func(p string) bool { return p == at || strings.HasPrefix(p, at+"/") || strings.HasPrefix(at, p+"/") }
	for i := range ep.Files {
		if under(ep.Files[i].Path) {
			return
		}
	}
	for i := range ep.Pre {
		if under(ep.Pre[i].Path) {
			return
		}
	}
	for _, d := range ep.Dirs {
		if d == at || strings.HasPrefix(d, at+"/") {
			return
		}
	}
	for l := range ep.Links {
		if under(l) {
			return
		}
	}
	ep.Pre = append(ep.Pre, TFile{at, []Blob{"in the way: " + Blob(at)}})
	ep.Kind = "obstructed"
}

func checkT05(t *simTool, ep *ToolEp) *TViol {
	fs := ep.disk(ep.Files, true)
	ref := t.reference(ep, ep.Files)
	pr, after := t.phase(fs, &ep.Phases[0])
	x := pr.Res[0]
	t.st.checks++
	if v := broken(x); v != nil {
		return v
	}
	if v := contained(x, ep, after); v != nil {
		return v
	}
	if v := ep.sourcesIntact(after, "after the run"); v != nil {
		return v
	}
	for i := range ep.Pre {
		f := &ep.Pre[i]
		if ep.Out != "" {
			if rel, ok := strings.CutPrefix(f.Path, ep.Out); ok {
				if _, mine := ref.tree[strings.TrimPrefix(rel, "/")]; mine {
					continue
				}
			}
		}
		w, e := after.walk(f.Path, true)
		if e != 0 || w.n == nil || string(w.n.data) != f.text() {
			return tviol("bystander", "%s, which is no output of this run, was changed or removed", f.Path)
		}
	}
	if ep.Kind == "obstructed" && x.Exit == 0 {
		return tviol("obstructed", "the run reports success although an output has no place: somebody else's file is there")
	}
	// no output replaces another one of the same run
	if x.Exit == 0 {
		made := map[string]bool{}
		for i, m := range x.Muts {
			if x.Kinds[i] == "truncate" || x.Kinds[i] == "create" {
				if made[m] {
					return tviol("overwrites", "the run reports success and wrote %s twice: one output replaced another", m)
				}
				made[m] = true
			}
			if x.Kinds[i] == "rename" || x.Kinds[i] == "unlink" {
				delete(made, m)
			}
		}
	}
	return nil
}

// ---- T06: sources that change meanwhile ------------------------------------------------

func genT06(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Max: 4, Dense: 50, Fancy: true}, 15)
	ep := s.episode("T06")
	ep.Kind = "replaced"
	ref := t.reference(ep, ep.Files)
	reach := s.p.reachable()
	steps := len(ref.res.Ops)
	var ph Phase
	vers := 1
	var near []int // the calls on sources
	for i, o := range ref.res.Ops {
		if isSource(ep, o.Path) {
			near = append(near, i+1)
		}
	}
	at := func() int {
		if len(near) > 0 && r.P(65) {
			return near[r.N(len(near))] + r.N(4)
		}
		return 1 + r.N(steps)
	}
	for k := 1 + r.N(3); k > 0 && vers < 8; k-- {
		u := s.p.Units[reach[r.N(len(reach))]]
		e := Edit{At: at(), Op: "put", Path: u.Path}
		c := *u
		c.Body = append([]string(nil), u.Body...)
		c.Forms = append([]string(nil), u.Forms...)
		switch r.N(11) {
		case 0:
			c.Lead += "// touched\n"
		case 1, 2:
			c.Body = append(c.Body, fmt.Sprintf("struct %s { uint8 %s; uint16 %s; };\n", s.p.id("New"), s.p.id("f_"), s.p.id("f_")))
		case 3:
			if len(c.Body) > 0 {
				c.Body = c.Body[:len(c.Body)-1]
			}
		case 4:
			c.Body = append(c.Body, "struct Half { uint8 ")
		case 5:
			c.Pkg += "x"
		case 6:
			e.Op = "remove"
		case 7:
			if n := len(c.Forms); n > 0 {
				c.Forms = c.Forms[:n-1]
			}
		default: // it imports something more, and uses it
			n := &Unit{Path: path.Join(path.Dir(u.Path), strings.ToLower(s.p.id("more"))+".bb"), Pkg: strings.ToLower(s.p.id("more")), Opts: append([]string(nil), u.Opts...)}
			name := s.p.id("More")
			n.Body = []string{fmt.Sprintf("struct %s { uint8 %s; };\n", name, s.p.id("f_"))}
			for i, o := range n.Opts { // a place of its own
				if k := strings.LastIndexByte(o, '"'); k > 0 {
					n.Opts[i] = o[:k] + "_more" + o[k:]
				}
			}
			f := n.file()
			ep.Files = append(ep.Files, f)
			c.Forms = append(c.Forms, path.Base(n.Path))
			c.Body = append(c.Body, fmt.Sprintf("struct %s { uint8 %s; %s %s; };\n", s.p.id("New"), s.p.id("f_"), name, s.p.id("f_")))
		}
		if e.Op == "put" {
			f := c.file()
			e.Data = Blob(f.text())
			*u = c
		}
		ph.Edits = append(ph.Edits, e)
		vers *= 2
	}
	// in the order of their steps
	for i := range ph.Edits {
		for j := i + 1; j < len(ph.Edits); j++ {
			if ph.Edits[j].At < ph.Edits[i].At {
				ph.Edits[i].At, ph.Edits[j].At = ph.Edits[j].At, ph.Edits[i].At
			}
		}
	}
	p := *ep.Ref
	p.Seed = r.U64()
	if r.P(50) {
		p.Chunk = 1 + r.U64()>>1
	}
	ph.Procs = []Proc{p}
	ep.Phases = []Phase{ph}
	return ep
}

func checkT06(t *simTool, ep *ToolEp) *TViol {
	pr, fs := t.phase(ep.disk(ep.Files, false), &ep.Phases[0])
	x := pr.Res[0]
	if v := broken(x); v != nil {
		return v
	}
	// the versions every file had while the program ran
	type ver struct {
		gone bool
		text string
	}
	vers := map[string][]ver{}
	for i := range ep.Files {
		vers[ep.Files[i].Path] = []ver{{text: ep.Files[i].text()}}
	}
	for _, e := range ep.Phases[0].Edits {
		vers[e.Path] = append(vers[e.Path], ver{e.Op == "remove", string(e.Data)})
	}
	paths := sortedKeys(vers)
	try := func(pick map[string]int) (*refRun, bool) {
		var files []TFile
		for _, p := range paths {
			v := vers[p][pick[p]]
			if !v.gone {
				files = append(files, TFile{p, []Blob{Blob(v.text)}})
			}
		}
		r := t.reference(ep, files)
		return r, r.res.Exit == x.Exit
	}
	got := map[string]string{}
	if ep.Out != "" {
		got = fs.tree(ep.Out)
	}
	same := func(r *refRun) bool {
		if r.res.Exit != x.Exit {
			return false
		}
		if x.Exit != 0 {
			return true
		}
		if string(r.res.Out) != string(x.Out) {
			return false
		}
		if ep.Out == "" {
			return true
		}
		for k, w := range r.tree {
			if isSource(ep, path.Join(ep.Out, k)) || strings.HasSuffix(k, "/") {
				continue
			}
			if got[k] != w {
				return false
			}
		}
		for k := range got {
			if _, ok := r.tree[k]; !ok && !strings.HasSuffix(k, "/") && !isSource(ep, path.Join(ep.Out, k)) {
				return false
			}
		}
		return true
	}
	t.st.checks++
	// first what it read, if it read every file once
	guess := map[string]int{}
	for p, vs := range vers {
		for i, v := range vs {
			for _, c := range x.Reads[p] {
				if !v.gone && v.text == c {
					guess[p] = i
				}
			}
			if len(x.Reads[p]) == 0 && v.gone {
				guess[p] = i
			}
		}
	}
	r, _ := try(guess)
	ok := same(r)
	if !ok {
		pick := map[string]int{}
		var rec func(k int) bool
		rec = func(k int) bool {
			if k == len(paths) {
				r, _ := try(pick)
				return same(r)
			}
			for i := range vers[paths[k]] {
				pick[paths[k]] = i
				if rec(k + 1) {
					return true
				}
			}
			return false
		}
		ok = rec(0)
	}
	if !ok {
		return tviol("mixture", "sources were replaced while the program ran; its result (%s) belongs to no choice of one version per file", describe(x))
	}
	if x.Exit == 1 && said(x) == "" {
		return tviol("silent", "the program fails without a word when sources change")
	}
	// afterwards the disk is quiet again
	var last []TFile
	for _, p := range paths {
		v := vers[p][len(vers[p])-1]
		if !v.gone {
			last = append(last, TFile{p, []Blob{Blob(v.text)}})
		}
	}
	ref := t.reference(ep, last)
	y, fs := t.one(fs, *ep.Ref)
	if y.Exit != ref.res.Exit {
		return tviol("no-recovery", "after the edits the same invocation gives %s, on a clean disk %s", describe(y), describe(ref.res))
	}
	if y.Exit == 0 {
		if string(y.Out) != string(ref.res.Out) {
			return tviol("no-recovery", "after the edits standard output differs from that on a clean disk: %s", textDiff(string(ref.res.Out), string(y.Out)))
		}
		if ep.Out != "" {
			if d := treeDiff(ref.tree, fs.tree(ep.Out), true); d != "" {
				return tviol("no-recovery", "after the edits the output differs from that on a clean disk: %s", d)
			}
		}
	}
	return nil
}

// ---- T07: import graphs -----------------------------------------------------------------

// spell writes the same place differently.
func spell(from, to string, r *RNG) string {
	rel, _ := relPath(path.Dir(from), to)
	switch r.N(8) {
	case 0:
		return to
	case 1:
		return path.Dir(to) + "/../" + path.Base(path.Dir(to)) + "/" + path.Base(to)
	case 2:
		return "./" + rel
	case 3:
		return "../" + path.Base(path.Dir(from)) + "/" + rel
	case 4:
		return strings.Replace(to, "/", "//", 2)
	case 5:
		return "/work/./src/../src" + strings.TrimPrefix(to, "/work/src")
	}
	return rel
}

func genT07(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Max: 6, Dense: 30, Fancy: true, Empty: true}, 8)
	p := s.p
	n := len(p.Units)
	ep := &ToolEp{}
	kind := "valid"
	link := func(i, j int) {
		u := p.Units[i]
		at := r.N(len(u.Imports) + 1)
		f := spell(u.Path, p.Units[j].Path, r)
		u.Imports = append(u.Imports[:at:at], append([]int{j}, u.Imports[at:]...)...)
		u.Forms = append(u.Forms[:at:at], append([]string{f}, u.Forms[at:]...)...)
	}
	// the same edges again, in other words
	for k := r.N(4); k > 0; k-- {
		i := r.N(n)
		if u := p.Units[i]; len(u.Imports) > 0 {
			link(i, u.Imports[r.N(len(u.Imports))])
		}
	}
	for i, u := range p.Units {
		for k := range u.Forms {
			if r.P(40) {
				u.Forms[k] = spell(u.Path, p.Units[u.Imports[k]].Path, r)
			}
		}
		_ = i
	}
	reach := p.reachable()
	pickR := func() int { return reach[r.N(len(reach))] }
	if r.P(55) {
		switch r.N(5) {
		case 0:
			kind = "cycle"
			// back from something to one of those that lead to it
			i := pickR()
			var desc []int
			q := *p
			q.Root = i
			desc = q.reachable()
			j := desc[r.N(len(desc))]
			if i == j {
				kind = "self"
			}
			link(j, i)
			ep.Names = []string{p.Units[j].Path, p.Units[i].Path}
		case 1:
			kind = "self"
			i := pickR()
			link(i, i)
			ep.Names = []string{p.Units[i].Path}
		case 2:
			kind = "missing"
			u := p.Units[pickR()]
			u.Forms = append(u.Forms, pickS(r, "nope.bb", "../nope/x.bb", "/work/src/none.bb", "x/../none.bb"))
			u.Imports = append(u.Imports, p.Root)
			ep.Names = []string{u.Path}
			if r.P(50) { // and what cannot be imported is wanted again
				for i, v := range p.Units {
					if v == u && i != p.Root {
						v := p.Units[p.Root]
						v.Forms = append(v.Forms, spell(v.Path, u.Path, r))
						v.Imports = append(v.Imports, i)
					}
				}
			}
		case 3:
			if len(reach) > 1 {
				kind = "same package"
				i, j := pickR(), pickR()
				for i == j {
					j = pickR()
				}
				p.Units[i].Pkg = p.Units[j].Pkg
				ep.Names = []string{p.Units[i].Path, p.Units[j].Path}
			}
		case 4:
			kind = "broken import"
			u := p.Units[pickR()]
			u.Body = append(u.Body, "struct {")
			ep.Names = []string{u.Path}
		}
	} else if r.P(60) {
		// files nobody imports may be anything
		seen := map[int]bool{}
		for _, i := range reach {
			seen[i] = true
		}
		for i, u := range p.Units {
			if !seen[i] {
				kind = "rubbish nearby"
				u.Body = append(u.Body, pickS(r, "struct {", "}}}", "\x00\xff", "import \"none.bb\";"))
			}
		}
	} else if r.P(8) {
		// the documentation's example of a constant whose type is an enum
		kind = "documented constant"
		u := p.Units[pickR()]
		u.Body = append(u.Body, "enum DocKind[1] {\n    DOC_DATA = 0x01,\n};\n\nstruct DocFrame {\n    DocKind opcode = DOC_DATA;\n    bytes data;\n};\n")
		ep.Names = []string{u.Path}
	}
	e := s.episode("T07")
	e.Names, e.Kind = ep.Names, kind
	for i := range e.Files {
		for _, q := range e.Files[i].Parts {
			if kind != "broken import" && (strings.HasPrefix(string(q), "import") || strings.HasPrefix(string(q), "package")) || strings.HasPrefix(string(q), "\nstruct {") {
				e.Keep = append(e.Keep, q)
			}
		}
	}
	e.Expect = "ok"
	switch kind {
	case "valid", "rubbish nearby", "documented constant":
		e.Files3 = expectedFiles(s)
	default:
		e.Expect = "reject"
	}
	if e.Expect == "ok" && r.P(20) {
		// the sources are reached through a link to their directory
		e.Links = map[string]string{"/src": "/work/src"}
		e.Dirs = append(e.Dirs, "/work/src")
	}
	return e
}

// expectedFiles lists the files a run leaves, by the documentation; nil when it
// does not say.
func expectedFiles(s *place) []string {
	if s.out == "" {
		return nil
	}
	if s.c.Single {
		return []string{""}
	}
	for _, f := range s.c.Flags {
		if f == "-rmpath" {
			return nil
		}
	}
	var out []string
	for _, i := range s.p.reachable() {
		u := s.p.Units[i]
		if u.Omit {
			continue
		}
		pk := strings.ReplaceAll(u.Pkg, ".", "/")
		opt := func(name string) (string, bool) {
			for _, o := range u.Opts {
				if rest, ok := strings.CutPrefix(o, "option "+name+" = \""); ok {
					return strings.TrimSuffix(rest, "\";"), true
				}
			}
			return "", false
		}
		switch s.c.Target {
		case "c":
			out = append(out, pk+".bb.h", pk+".bb.c")
		case "cpp":
			out = append(out, pk+".bb.hpp", pk+".bb.cpp")
		case "cs":
			out = append(out, pk+".bb.cs")
		case "cjs", "esm":
			out = append(out, pk+".bb.js")
		case "py":
			out = append(out, pk+"_bb.py")
		case "go":
			if g, ok := opt("go_package"); ok {
				pk = g
			}
			out = append(out, pk+"/"+path.Base(pk)+".bb.go")
		case "java", "kt":
			name := map[string]string{"java": "java_package", "kt": "kotlin_package"}[s.c.Target]
			if g, ok := opt(name); ok {
				pk = strings.ReplaceAll(g, ".", "/")
			}
			for _, st := range u.structs {
				out = append(out, pk+"/"+st.name+outExt(s.c.Target))
			}
			for _, en := range u.enums {
				out = append(out, pk+"/"+en.name+outExt(s.c.Target))
			}
		}
	}
	return sortStrings(out)
}

var refForms = map[string]*regexp.Regexp{
	".h": regexp.MustCompile(`(?m)^#include "([^"]+)"`), ".js": regexp.MustCompile(`(?m)(?:require\(|^import .* from )"(\.[^"]+)"`),
	".py": regexp.MustCompile(`(?m)^from (\.*[\w.]+_bb) import`), ".go": regexp.MustCompile(`(?m)^\s+\. "([^"]+)"`),
}

// danglingRef gives what a generated file refers to and is not there: included,
// imported or required generated files are where the reference says, seen from the
// file (relative paths) or from the output directory. Where prefixes of output
// paths are removed, absolute references (and Go's, as documented) are the user's.
func danglingRef(args []string, file string, have map[string]string) string {
	ext := map[string]string{".c": ".h", ".h": ".h", ".cpp": ".h", ".hpp": ".h", ".js": ".js", ".py": ".py", ".go": ".go"}[path.Ext(file)]
	if ext == "" {
		return ""
	}
	rel, cut := ext == ".js", false
	for _, a := range args {
		rel = rel || a == "-relpath"
		cut = cut || a == "-rmpath"
	}
	if cut && (!rel || ext == ".go") {
		return ""
	}
	base := "."
	if rel {
		base = path.Dir(file)
	}
	for _, m := range refForms[ext].FindAllStringSubmatch(have[file], -1) {
		to := path.Join(base, m[1])
		switch ext {
		case ".js":
			to = strings.TrimSuffix(to, ".js") + ".js"
		case ".py":
			x := strings.TrimLeft(m[1], ".")
			up := ""
			for k := len(m[1]) - len(x); k > 1; k-- {
				up += "../"
			}
			to = path.Join(base, up, strings.ReplaceAll(x, ".", "/")+".py")
		case ".go":
			if rel { // calculated between package paths, as the documentation has it
				to = path.Join(path.Dir(base), m[1])
			}
			found := false
			for f := range have {
				found = found || path.Dir(f) == to && strings.HasSuffix(f, ".go")
			}
			if !found {
				return m[1]
			}
			continue
		}
		if _, ok := have[to]; !ok {
			return m[1]
		}
	}
	return ""
}

func checkT07(t *simTool, ep *ToolEp) *TViol {
	x, fs := t.one(ep.disk(ep.Files, true), *ep.Ref)
	t.st.checks++
	if v := broken(x); v != nil {
		v.Msg = ep.Kind + ": " + v.Msg
		return v
	}
	if ep.Expect == "ok" {
		if x.Exit != 0 {
			kind := "refused"
			if ep.Kind == "documented constant" && x.Exit == 1 && len(x.Muts) == 0 {
				e := ansi.ReplaceAllString(string(x.Err), "")
				if n := strings.Count(e, "syntax error: "); n > 0 && n == strings.Count(e, "syntax error: no viable alternative at input '='") {
					kind = "finding:enum-typed-constant"
				}
			}
			return tviol(kind, "%s import graph: refused: %s", ep.Kind, describe(x))
		}
		if ep.Out == "" {
			return nil
		}
		got := fs.tree(ep.Out)
		for _, f := range sortedKeys(got) {
			if !isSource(ep, path.Join(ep.Out, f)) {
				if r := danglingRef(ep.Ref.Args, f, got); r != "" {
					return tviol("reference", "%s import graph: %s refers to %s, which no generated file is (there are %v)", ep.Kind, f, r, sortedKeys(got))
				}
			}
		}
		if ep.Files3 == nil {
			return nil
		}
		have := map[string]bool{}
		strict := true
		for _, f := range ep.Files3 {
			if strings.HasSuffix(f, ".java") || strings.HasSuffix(f, ".kt") {
				strict = false // nested definitions may have files of their own
			}
			have[f] = true
			if _, ok := got[f]; !ok {
				return tviol("file-missing", "%s import graph: %s was not generated", ep.Kind, path.Join(ep.Out, f))
			}
		}
		for _, f := range sortedKeys(got) {
			if !have[f] && strict && !isSource(ep, path.Join(ep.Out, f)) && !strings.HasSuffix(f, "/") && !strings.HasSuffix(f, ".bb") {
				return tviol("file-extra", "%s import graph: %s was generated and belongs to no file of the graph", ep.Kind, path.Join(ep.Out, f))
			}
		}
		return nil
	}
	if x.Exit == 0 {
		return tviol("accepted", "%s: an invalid import graph is accepted", ep.Kind)
	}
	if x.Exit != 1 {
		return tviol("exit", "%s: exit status %d, not 1", ep.Kind, x.Exit)
	}
	if len(x.Muts) > 0 {
		return tviol("partial", "%s: refused (%s) after %s %s", ep.Kind, said(x), x.Kinds[0], x.Muts[0])
	}
	ok := len(ep.Names) == 0
	for _, n := range ep.Names {
		ok = ok || strings.Contains(string(x.Err), n)
	}
	if !ok {
		return tviol("unnamed", "%s: the diagnostic names none of %v: %q", ep.Kind, ep.Names, said(x))
	}
	if ep.Kind == "cycle" || ep.Kind == "self" {
		named := false
		for _, w := range []string{"cycl", "self", "circular", "recursive"} {
			named = named || strings.Contains(strings.ToLower(string(x.Err)), w)
		}
		if !named {
			return tviol("misnamed", "%s: not reported as a cycle of imports: %q", ep.Kind, said(x))
		}
	}
	if ep.Kind != "cycle" && ep.Kind != "self" {
		for _, w := range []string{"cycle", "self import", "circular"} {
			if strings.Contains(strings.ToLower(string(x.Err)), w) {
				return tviol("misnamed", "%s: reported as a cycle of imports: %q", ep.Kind, said(x))
			}
		}
	}
	return nil
}

// ---- T08: damaged sources ------------------------------------------------------------------

// vocabulary is every word and sign of the language, and names valid and invalid.
var vocabulary = strings.Fields(`package option import enum struct void get set value true false
	bool uint8 uint16 uint32 uint64 int8 int16 int32 int64 float32 float64 string bytes
	{ } [ ] < > ( ) ; , : # = == != <= >= << >> && || ! ~ & | ^ + - * / % ? .
	0 1 2 8 0x7F 0b101 077 1.5 -1 1e3 18446744073709551615 "text" 'text' "" "big" "little" order
	name Name NAME _ x X1 a_b A_B aB Ab struct_ Struct u8 _9 Name.name
	0x 0b 0o 0xG 0b2 1e 1e999 1e-999 -1e999 1. .5 . -0 -0.0 00 08 0x1FFFFFFFFFFFFFFFFFF 99999999999999999999999
	9223372036854775807 9223372036854775808 -9223372036854775808 4294967296 2147483648 1e308 inf nan -inf
	' " '\'' "\x" "\u12" "\" "\377" "\0" '"' "'" \ @ $ /* */ // [#] [#0] [0] [] <0> <> () {} ;; ,, :: ** ?: = = -- ++ !! ~~ ...`)

var tokenRe = regexp.MustCompile(`[A-Za-z_0-9.]+|"[^"]*"|\s+|.`)

// corruptTokens keeps the words and changes their order and number.
func corruptTokens(r *RNG, b string) string {
	t := tokenRe.FindAllString(b, -1)
	var at []int
	for i, x := range t {
		if strings.TrimSpace(x) != "" {
			at = append(at, i)
		}
	}
	for k := 1 + r.N(3); k > 0 && len(at) > 0; k-- {
		i := at[r.N(len(at))]
		switch r.N(5) {
		case 0:
			t[i] = ""
		case 1:
			t[i] += " " + t[i]
		case 2:
			t[i] = vocabulary[r.N(len(vocabulary))]
		case 3:
			t[i] += " " + vocabulary[r.N(len(vocabulary))] + " "
		case 4:
			t[i] = t[at[r.N(len(at))]]
		}
	}
	return strings.Join(t, "")
}

func corrupt(r *RNG, b string) string {
	if r.P(40) {
		return corruptTokens(r, b)
	}
	d := []byte(b)
	for k := 1 + r.N(3); k > 0; k-- {
		if len(d) == 0 {
			return string(d)
		}
		i := r.N(len(d))
		switch r.N(10) {
		case 0: // cut
			d = d[:i]
		case 1: // lost blocks
			for j := i; j < len(d) && j < i+1+r.N(512); j++ {
				d[j] = 0
			}
		case 2: // bits
			for j := 1 + r.N(4); j > 0; j-- {
				d[r.N(len(d))] ^= 1 << uint(r.N(8))
			}
		case 3: // a stretch twice
			e := i + r.N(len(d)-i+1)
			d = append(d[:e:e], append(append([]byte(nil), d[i:e]...), d[e:]...)...)
		case 4: // a stretch gone
			e := i + r.N(min(40, len(d)-i)+1)
			d = append(d[:i:i], d[e:]...)
		case 5: // two stretches exchanged
			j := r.N(len(d))
			n := r.N(12)
			for k := 0; k < n && i+k < len(d) && j+k < len(d); k++ {
				d[i+k], d[j+k] = d[j+k], d[i+k]
			}
		case 6: // characters the editor did not mean
			s := pickS(r, "\x00", "\xff\xfe", "\u2028", "é", "\"", "/*", "}", "{", ";", "<", "[#", "-", "99", "\\", "`", "\r", "\xc3", ".", "=", "(", "?:")
			d = append(d[:i:i], append([]byte(s), d[i:]...)...)
		case 7: // a digit changed
			for j := 0; j < len(d); j++ {
				q := (i + j) % len(d)
				if d[q] >= '0' && d[q] <= '9' {
					d[q] = byte('0' + r.N(10))
					break
				}
			}
		case 9: // a number grown
			for j := 0; j < len(d); j++ {
				q := (i + j) % len(d)
				if d[q] >= '0' && d[q] <= '9' {
					n := make([]byte, 1+r.N(17))
					for k := range n {
						n[k] = byte('0' + r.N(10))
					}
					d = append(d[:q:q], append(n, d[q:]...)...)
					break
				}
			}
		case 8: // a word of the language in place of something
			w := pickS(r, "struct", "enum", "void", "string", "bytes", "bool", "float32", "uint8", "int64", "import", "package", "option", "get", "set", "value", "true")
			e := i
			for e < len(d) && d[e] != ' ' && d[e] != ';' && d[e] != '\n' {
				e++
			}
			d = append(d[:i:i], append([]byte(w), d[e:]...)...)
		}
	}
	return string(d)
}

// grownFiles is a valid project of one regular shape, many times over: the work
// for it grows with its size, not with the number of ways through it.
func grownFiles(r *RNG, root string) []TFile {
	var b strings.Builder
	var out []TFile
	b.WriteString("package grown.p;\n")
	n := r.Range(12, 40)
	switch r.N(8) {
	case 0, 1: // every type refers to the one before it more than once
		w := r.Range(2, 3)
		fmt.Fprintf(&b, "struct Gr0 { %s x; }\n", pickS(r, "string", "bytes"))
		for i := 1; i <= n; i++ {
			fmt.Fprintf(&b, "struct Gr%d {", i)
			for j := 0; j < w; j++ {
				fmt.Fprintf(&b, " Gr%d%s f%d;", i-1, pickS(r, "", "", "<2>"), j)
			}
			b.WriteString(" }\n")
		}
	case 2: // every file imports several of those before it
		n = r.Range(8, 24)
		w := r.Range(2, 4)
		for i := 0; i < n; i++ {
			t := fmt.Sprintf("package grown.l%d;\n", i)
			for j := max(0, i-w); j < i; j++ {
				t += fmt.Sprintf("import \"lad%d.bb\";\n", j)
			}
			t += fmt.Sprintf("struct La%d { uint8 x;", i)
			if i > 0 {
				t += fmt.Sprintf(" La%d a; La%d b;", max(0, i-1), max(0, i-2))
			}
			if i > 20 { // sizes double: start again
				t = strings.Replace(t, fmt.Sprintf(" La%d a; La%d b;", i-1, i-2), "", 1)
			}
			out = append(out, TFile{Path: path.Join(path.Dir(root), fmt.Sprintf("lad%d.bb", i)), Parts: []Blob{Blob(t + " }\n")}})
			fmt.Fprintf(&b, "import \"lad%d.bb\";\n", i)
		}
		b.WriteString("struct Top { uint8 x; }\n")
	case 3:
		k := r.Range(20, 300)
		fmt.Fprintf(&b, "struct Deep { uint8 a { get g(uint64): %svalue%s; }; }\n", strings.Repeat("(", k), strings.Repeat(")", k))
	case 4:
		k := r.Range(50, 400)
		op := pickS(r, " + ", " * ", " | ", " ^ ", " & ", " - ")
		fmt.Fprintf(&b, "struct Long { uint8 a { get g(uint64): value%s; }; }\n", strings.Repeat(op+"value", k))
	case 5:
		b.WriteString("struct Wide {")
		for i := r.Range(100, 400); i > 0; i-- {
			fmt.Fprintf(&b, " uint8 f%d;", i)
		}
		b.WriteString(" }\n")
	case 6:
		b.WriteString("enum Many[2] {")
		for i, k := 0, r.Range(100, 1500); i < k; i++ {
			fmt.Fprintf(&b, " MANY_%d%s,", i, pickS(r, "", "", "", fmt.Sprintf(" = %d", i+k)))
		}
		b.WriteString(" }\nstruct Has { Many m; }\n")
	case 7:
		fmt.Fprintf(&b, "struct Em0 { uint8 e0; }\n")
		for i := 1; i <= n; i++ {
			fmt.Fprintf(&b, "struct Em%d { uint8 e%d; Em%d; }\n", i, i, i-1)
		}
	}
	return append(out, TFile{Path: root, Parts: []Blob{Blob(b.String())}})
}

func genT08(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Max: 3, Methods: true, Dense: 50, Fancy: true}, 10)
	// unrolling a damaged array length is not what this is about
	s.c.Flags = dropFlag(s.c.Flags, "-unroll")
	ep := s.episode("T08")
	if r.P(7) {
		ep.Files = grownFiles(r, s.p.Units[s.p.Root].Path)
		ep.Links = nil
		ep.Kind, ep.Expect = "grown", "ok"
		for i := range ep.Files {
			ep.Keep = append(ep.Keep, Blob(ep.Files[i].text()))
		}
		return ep
	}
	reach := s.p.reachable()
	for k := 1 + r.N(2); k > 0; k-- {
		f := &ep.Files[reach[r.N(len(reach))]]
		if r.P(60) {
			i := r.N(len(f.Parts))
			f.Parts[i] = Blob(corrupt(r, string(f.Parts[i])))
		} else {
			f.Parts = []Blob{Blob(corrupt(r, f.text()))}
		}
	}
	ep.Kind = "damaged"
	return ep
}

func checkT08(t *simTool, ep *ToolEp) *TViol {
	x, fs := t.one(ep.disk(ep.Files, false), *ep.Ref)
	t.st.checks++
	if v := broken(x); v != nil {
		return v
	}
	if x.Exit != 0 && x.Exit != 1 {
		return tviol("exit", "exit status %d on damaged sources", x.Exit)
	}
	if ep.Expect == "ok" && x.Exit != 0 {
		return tviol("refused", "%s: a valid project is refused: %s", ep.Kind, describe(x))
	}
	if x.Exit == 1 && said(x) == "" {
		return tviol("silent", "damaged sources are refused without a word")
	}
	return ep.sourcesIntact(fs, "after the run")
}

// ---- T10: several at once --------------------------------------------------------------------

func genT10(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Max: 5, Dense: 50, Fancy: true, Methods: true}, 0)
	s.c.Single = false
	s.out = pickS(r, "/work/out", "/work/out/a/b", "/work/out")
	s.c.Out = s.out
	ep := s.episode("T10")
	ep.Kind = "one output directory"
	var ph Phase
	for k := 2 + r.N(3); k > 0; k-- {
		q := *s
		u := s.p.Units[r.N(len(s.p.Units))]
		q.input = u.Path
		p := disturb(r, q.proc())
		if r.P(60) {
			p.Chunk = 0
		}
		ph.Procs = append(ph.Procs, p)
	}
	// bursts of different lengths
	for i := 0; i < 400; {
		k := r.N(len(ph.Procs))
		n := 1
		switch r.N(4) {
		case 0:
			n = 1 + r.N(4)
		case 1:
			n = 1 + r.N(20)
		}
		for ; n > 0; n-- {
			ph.Sched = append(ph.Sched, k)
			i++
		}
	}
	ep.Phases = []Phase{ph}
	return ep
}

func checkT10(t *simTool, ep *ToolEp) *TViol {
	ph := &ep.Phases[0]
	want := map[string]string{}
	var outs [][2]string
	for i := range ph.Procs {
		p := *ep.Ref
		p.Args, p.Cwd = ph.Procs[i].Args, ph.Procs[i].Cwd
		x, fs := t.one(ep.disk(ep.Files, false), p)
		if v := broken(x); v != nil {
			return v
		}
		if x.Exit != 0 {
			return tviol("refused", "a valid project is refused: %s", describe(x))
		}
		outs = append(outs, [2]string{string(x.Out), said(x)})
		for k, v := range fs.tree(ep.Out) {
			if w, ok := want[k]; ok && w != v {
				return tviol("disagree", "%s depends on the file the compilation starts from: %s", k, textDiff(w, v))
			}
			want[k] = v
		}
	}
	pr, fs := t.phase(ep.disk(ep.Files, true), ph)
	t.st.checks++
	for i, x := range pr.Res {
		if v := broken(x); v != nil {
			return v
		}
		if x.Exit != 0 {
			return tviol("disturbed", "an invocation fails because others run beside it: %s", describe(x))
		}
		if string(x.Out) != outs[i][0] || said(x) != outs[i][1] {
			return tviol("disturbed", "an invocation's own output changes because others run beside it")
		}
	}
	if d := treeDiff(want, fs.tree(ep.Out), false); d != "" {
		return tviol("torn", "invocations running at once left something else than one after the other: %s", d)
	}
	return ep.sourcesIntact(fs, "after the run")
}

// ---- T11: the same thing said differently -------------------------------------------------------

var tokenRE = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*|"(?:[^"\\]|\\.)*"|[A-Za-z0-9_][A-Za-z0-9_.]*|<<|>>|==|!=|<=|>=|&&|\|\||\s+|.`)

func wordy(s string) bool {
	c := s[0]
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '.'
}

// reformat writes the same tokens with other space and comments between them.
func reformat(text string, r *RNG) string {
	var b strings.Builder
	style := r.N(5)
	space := func(need bool) {
		switch {
		case style == 0: // as tight as possible
			if need {
				b.WriteString(" ")
			}
		case style == 1:
			b.WriteString("\r\n")
		case style == 2:
			b.WriteString(pickS(r, " ", "\t", "  ", "\n", "\n\n"))
		default:
			if !need && r.P(60) {
				return
			}
			b.WriteString(pickS(r, " ", "\n", "\t", " /* \" */ ", "/**/", " // struct X {\n", "/* // */", "\r\n", " // é\n", "/* a\n * b\n */"))
		}
	}
	last := ""
	for _, tok := range tokenRE.FindAllString(text, -1) {
		if strings.HasPrefix(tok, "//") || strings.HasPrefix(tok, "/*") || strings.TrimSpace(tok) == "" {
			continue
		}
		need := last != "" && wordy(last) && wordy(tok)
		if last != "" && last[len(last)-1] == '/' {
			b.WriteString(" ") // not the beginning of a comment
			need = false
		}
		space(need)
		b.WriteString(tok)
		last = tok
	}
	if r.P(50) {
		b.WriteString(pickS(r, "\n", "\r\n", " // end", "/* end */", "\n\n\n"))
	}
	return b.String()
}

var sizeRE = regexp.MustCompile(`(?m)^(    )(u?int(?:8|16|32|64)|bool|float32|float64) ([a-z_0-9]+)( \[order = "[a-z]+"\])?;$`)

func explicitSizes(text string, r *RNG) string {
	sz := map[string]string{"8": "1", "6": "2", "2": "4", "4": "8", "l": "1"}
	return sizeRE.ReplaceAllStringFunc(text, func(m string) string {
		g := sizeRE.FindStringSubmatch(m)
		if r.P(50) {
			return m
		}
		n := sz[g[2][len(g[2])-1:]]
		if r.P(50) {
			k, _ := atoi(n)
			n = fmt.Sprintf("#%d", 8*k)
		}
		return fmt.Sprintf("%s%s %s[%s]%s;", g[1], g[2], g[3], n, g[4])
	})
}

var (
	quotedRE  = regexp.MustCompile(`"[a-zA-Z0-9_./:-]*"`)
	typeUseRE = regexp.MustCompile(`(?m)^(\s+)([A-Za-z_][A-Za-z_0-9]*)((?:<[0-9]+>)?(?: [a-zA-Z_0-9]+[^=\n]*)?;)`)
	enumSepRE = regexp.MustCompile(`(?m)^(\s+[A-Za-z_0-9]+(?: = [A-Za-z_0-9]+)?),$`)
)

// respell uses the other forms that the grammar has for strings, type names,
// separators and empty statements.
func respell(text string, r *RNG, typeWord map[string]string) string {
	text = quotedRE.ReplaceAllStringFunc(text, func(m string) string {
		if r.P(50) {
			return m
		}
		return "'" + m[1:len(m)-1] + "'"
	})
	text = typeUseRE.ReplaceAllStringFunc(text, func(m string) string {
		g := typeUseRE.FindStringSubmatch(m)
		if typeWord[g[2]] == "" || r.P(50) {
			return m
		}
		return g[1] + typeWord[g[2]] + g[2] + g[3]
	})
	text = enumSepRE.ReplaceAllStringFunc(text, func(m string) string {
		return m[:len(m)-1] + pickS(r, ",", ";", ",;", ";;")
	})
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		if strings.HasSuffix(l, "{") && !strings.Contains(l, "[") && r.P(20) && strings.HasPrefix(strings.TrimSpace(l), "struct") || l == "}" && r.P(30) {
			lines[i] = l + pickS(r, ";", " ;", ";;")
		}
	}
	return strings.Join(lines, "\n")
}

var targetNames = map[string][]string{"cs": {"cs", "csharp"}, "cjs": {"cjs", "commonjs"}, "esm": {"esm", "esmodule", "javascript", "js", "mjs"}, "kt": {"kt", "kotlin"}, "py": {"py", "python"}}

// mootFlags change nothing for a target, by the documentation or by its own warning.
var mootFlags = map[string][]string{
	"c": {"-inner"}, "cpp": {"-inner"}, "go": {"-inner"}, "cs": {"-inner", "-relpath"},
	"java": {"-inner", "-relpath", "-memcpy"}, "kt": {"-inner", "-relpath", "-memcpy"}, "py": {"-inner", "-memcpy"},
	"cjs": {"-inner", "-relpath", "-memcpy", "-minimal"}, "esm": {"-inner", "-relpath", "-memcpy", "-minimal"},
}

func genT11(t *simTool, r *RNG) *ToolEp {
	s := genSetup(r, ProjCfg{Methods: true, Fancy: true, Empty: true, Dense: 30}, 10)
	ep := s.episode("T11")
	ep.Kind = pickS(r, "layout", "layout", "import paths", "widths", "invocation", "spelling", "moot flags", "other languages' options")
	other := s.p.clone()
	switch ep.Kind {
	case "other languages' options":
		own := map[string]string{"cpp": "cpp_namespace", "cs": "csharp_namespace", "go": "go_package", "java": "java_package", "kt": "kotlin_package"}[s.c.Target]
		for _, u := range other.Units {
			var o []string
			for _, x := range u.Opts {
				if f := strings.Fields(x); f[1] == own || f[1] == "omit_empty" {
					o = append(o, x)
				}
			}
			for _, n := range []string{"cpp_namespace", "csharp_namespace", "go_package", "java_package", "kotlin_package"} {
				if n != own && r.P(40) {
					at := r.N(len(o) + 1)
					o = append(o[:at:at], append([]string{fmt.Sprintf("option %s = %q;", n, pickS(r, "Other", "o.p", "x/y/zz"))}, o[at:]...)...)
				}
			}
			u.Opts = o
		}
	case "import paths":
		for _, u := range other.Units {
			for k := range u.Forms {
				u.Forms[k] = spell(u.Path, other.Units[u.Imports[k]].Path, r)
			}
		}
	}
	typeWord := map[string]string{}
	for _, u := range other.Units {
		for _, x := range u.structs {
			typeWord[x.name] = "struct "
		}
		for _, x := range u.enums {
			typeWord[x.name] = "enum "
		}
	}
	ep.Files2 = other.files()
	for i := range ep.Files2 {
		for j := range ep.Files2[i].Parts {
			x := string(ep.Files2[i].Parts[j])
			switch ep.Kind {
			case "layout":
				x = reformat(x, r) + "\n"
			case "widths":
				x = explicitSizes(x, r)
			case "spelling":
				x = respell(x, r, typeWord)
			}
			ep.Files2[i].Parts[j] = Blob(x)
		}
	}
	p := *ep.Ref
	if ep.Kind == "moot flags" {
		// what a target does anyway, and what it says it does not know, said or not said
		c := s.c
		c.Flags = append([]string(nil), c.Flags...)
		toggle := func(f string) {
			for i, x := range c.Flags {
				if x == f {
					c.Flags = append(c.Flags[:i:i], c.Flags[i+1:]...)
					return
				}
			}
			c.Flags = append([]string{f}, c.Flags...)
		}
		for _, f := range mootFlags[c.Target] {
			if r.P(60) {
				toggle(f)
			}
		}
		has := func(f string) bool {
			for _, x := range c.Flags {
				if x == f {
					return true
				}
			}
			return false
		}
		if !has("-unroll") && r.P(50) {
			c.Flags = append(c.Flags, "-unroll", "4")
		}
		if n := c.Target; (n == "java" || n == "py" || n == "cjs" || n == "esm") && r.P(50) {
			if has("-signext") {
				c.Flags = dropFlag(c.Flags, "-signext")
			} else {
				c.Flags = append(c.Flags, "-signext", pickS(r, "shift", "arith"))
			}
		} else if n != "kt" && !has("-signext") && r.P(30) {
			c.Flags = append(c.Flags, "-signext", "shift")
		}
		p.Args = c.args(p.Args[len(p.Args)-1])
	}
	if ep.Kind == "invocation" {
		c := s.c
		if n := targetNames[c.Target]; n != nil {
			c.Target = n[r.N(len(n))]
		}
		if c.Out != "" {
			c.Out = s.out
			if !c.Single {
				c.Out = pickS(r, s.out, s.out+"/", s.out+"/.", s.out+"//", "/work/.."+s.out)
			}
		}
		// flags in any order
		var fl [][]string
		for i := 0; i < len(c.Flags); i++ {
			f := []string{c.Flags[i]}
			if f[0] == "-unroll" || f[0] == "-signext" || f[0] == "-rmpath" {
				i++
				f = append(f, c.Flags[i])
			}
			fl = append(fl, f)
		}
		fl = append(fl, []string{"-t", c.Target})
		if c.Single {
			fl = append(fl, []string{"-single"})
		}
		if c.Out != "" {
			fl = append(fl, []string{"-o", c.Out})
		}
		p.Args = nil
		for len(fl) > 0 {
			k := r.N(len(fl))
			f := fl[k]
			fl = append(fl[:k:k], fl[k+1:]...)
			if r.P(30) {
				f[0] = "-" + f[0]
			}
			if len(f) == 2 && r.P(30) {
				f = []string{f[0] + "=" + f[1]}
			}
			p.Args = append(p.Args, f...)
		}
		p.Cwd = pickS(r, "/work", "/work/src", "/")
		root := s.p.Units[s.p.Root].Path
		in, _ := relPath(p.Cwd, root)
		p.Args = append(p.Args, pickS(r, root, in, "./"+in, path.Dir(root)+"/./"+path.Base(root), "/work/../"+strings.TrimPrefix(root, "/")))
	}
	ep.Phases = []Phase{{Procs: []Proc{p}}}
	return ep
}

var flagNote = regexp.MustCompile(`(?m)^(//|#)   [A-Z]\w+: [-\w]+$`)

func checkT11(t *simTool, ep *ToolEp) *TViol {
	ref := t.reference(ep, ep.Files)
	if v := broken(ref.res); v != nil {
		return v
	}
	if ref.res.Exit != 0 {
		return tviol("refused", "a valid project is refused: %s", describe(ref.res))
	}
	pr, fs := t.phase(ep.disk(ep.Files2, false), &ep.Phases[0])
	x := pr.Res[0]
	t.st.checks++
	if v := broken(x); v != nil {
		return v
	}
	if x.Exit != 0 {
		return tviol("respelled", "%s: the same project, spelled differently, is refused: %s", ep.Kind, describe(x))
	}
	verbose := false
	for _, a := range ep.Ref.Args {
		verbose = verbose || a == "-v"
	}
	plain := func(x string) string { return x }
	if ep.Kind == "moot flags" { // the list of the flags in the header of an output
		plain = func(x string) string { return flagNote.ReplaceAllString(x, "") }
	}
	if a, b := plain(string(ref.res.Out)), plain(string(x.Out)); !verbose && a != b {
		return tviol("respelled", "%s: the same project, spelled differently, gives other text on standard output: %s", ep.Kind, textDiff(a, b))
	}
	if ep.Out == "" {
		return nil
	}
	drop := func(m map[string]string) map[string]string {
		o := map[string]string{}
		for k, v := range m {
			if !isSource(ep, path.Join(ep.Out, k)) {
				o[k] = plain(v)
			}
		}
		return o
	}
	if d := treeDiff(drop(ref.tree), drop(fs.tree(ep.Out)), false); d != "" {
		return tviol("respelled", "%s: the same project, spelled differently, gives other output: %s", ep.Kind, d)
	}
	return nil
}
