package main

import (
	"fmt"
	"strconv"
	"strings"
)

// ---- Kotlin: reading ----------------------------------------------------------
//
// There is no Kotlin compiler in the sandbox. Generated Kotlin is therefore read and
// executed by an interpreter inside the simulator: kt_parse.go reads it, kt_run.go gives
// it Kotlin's meaning (typed numbers, wrapping, literal adaptation, exceptions). What the
// interpreter does not know makes the variant unavailable, never a violation.

// ktUnsup: a construct the interpreter does not know.
type ktUnsup struct{ msg string }

func (e ktUnsup) Error() string { return "Kotlin beyond the interpreter: " + e.msg }

// ktReject: code no Kotlin compiler accepts.
type ktReject struct{ msg string }

func (e ktReject) Error() string { return "rejected by Kotlin's rules: " + e.msg }

type ktTok struct {
	k    byte // i identifier, n number, s string, o operator, e end
	s    string
	nl   bool // first on its line
	line int
}

var ktOps = []string{"===", "!==", "..<", "...", "->", "::", "?.", "?:", "!!", "..", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "%=", "++", "--"}

func ktLex(text string) []ktTok {
	var out []ktTok
	nl, line := true, 1
	i := 0
	emit := func(k byte, s string) { out = append(out, ktTok{k, s, nl, line}); nl = false }
	ident := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
	}
next:
	for i < len(text) {
		c := text[i]
		switch {
		case c == '\n':
			nl = true
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(text[i:], "//"):
			for i < len(text) && text[i] != '\n' {
				i++
			}
		case strings.HasPrefix(text[i:], "/*"):
			j := strings.Index(text[i+2:], "*/")
			if j < 0 {
				panic(ktReject{"unclosed comment"})
			}
			line += strings.Count(text[i:i+j+4], "\n")
			i += j + 4
		case c == '"':
			if strings.HasPrefix(text[i:], `"""`) {
				panic(ktUnsup{"raw string"})
			}
			var b strings.Builder
			for i++; ; {
				if i >= len(text) || text[i] == '\n' {
					panic(ktReject{fmt.Sprintf("line %d: unclosed string", line)})
				}
				if text[i] == '"' {
					i++
					break
				}
				if text[i] == '$' && i+1 < len(text) && (text[i+1] == '{' || ident(text[i+1])) {
					panic(ktUnsup{"string template"})
				}
				if text[i] != '\\' {
					b.WriteByte(text[i])
					i++
					continue
				}
				i++
				switch text[i] {
				case 'n':
					b.WriteByte('\n')
				case 't':
					b.WriteByte('\t')
				case 'r':
					b.WriteByte('\r')
				case 'b':
					b.WriteByte(8)
				case '"', '\\', '$', '\'':
					b.WriteByte(text[i])
				case 'u':
					v, err := strconv.ParseUint(text[i+1:i+5], 16, 32)
					if err != nil {
						panic(ktReject{"bad escape"})
					}
					b.WriteRune(rune(v))
					i += 4
				default:
					panic(ktReject{fmt.Sprintf("line %d: illegal escape \\%c", line, text[i])})
				}
				i++
			}
			emit('s', b.String())
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(text) && text[i+1] >= '0' && text[i+1] <= '9':
			j := i
			hex := strings.HasPrefix(text[i:], "0x") || strings.HasPrefix(text[i:], "0X")
			for j < len(text) {
				d := text[j]
				switch {
				case ident(d):
					if !hex && (d == 'e' || d == 'E') && j+1 < len(text) && (text[j+1] == '-' || text[j+1] == '+') {
						j++
					}
				case d == '.' && !hex && !strings.Contains(text[i:j], ".") && j+1 < len(text) && text[j+1] >= '0' && text[j+1] <= '9':
				default:
					goto done
				}
				j++
			}
		done:
			emit('n', text[i:j])
			i = j
		case c == '`':
			j := strings.IndexByte(text[i+1:], '`')
			if j < 0 {
				panic(ktReject{"unclosed `"})
			}
			emit('i', text[i+1:i+1+j])
			i += j + 2
		case ident(c):
			j := i
			for j < len(text) && ident(text[j]) {
				j++
			}
			emit('i', text[i:j])
			i = j
		default:
			for _, o := range ktOps {
				if strings.HasPrefix(text[i:], o) {
					emit('o', o)
					i += len(o)
					continue next
				}
			}
			if !strings.ContainsRune("(){}[]<>,.:;=+-*/%!?@&|", rune(c)) {
				panic(ktUnsup{fmt.Sprintf("character %q", c)})
			}
			emit('o', string(c))
			i++
		}
	}
	nl = true
	emit('e', "")
	return out
}

type ktType struct {
	name string
	args []*ktType
	null bool
}

func (t *ktType) String() string {
	s := t.name
	if len(t.args) > 0 {
		s += "<"
		for i, a := range t.args {
			if i > 0 {
				s += ", "
			}
			s += a.String()
		}
		s += ">"
	}
	if t.null {
		s += "?"
	}
	return s
}

// ktN is a node of the syntax tree.
type ktN struct {
	k    string
	s    string
	kids []*ktN
	ty   *ktType
	flag bool
	line int
}

type ktParam struct {
	name string
	ty   *ktType
	def  *ktN
	prop byte // 'v'al, va'r' of a primary constructor
	priv bool
}

type ktFun struct {
	name   string
	params []*ktParam
	ret    *ktType
	body   *ktN // block, or expression when expr
	expr   bool
	priv   bool
	line   int
}

type ktProp struct {
	name     string
	ty       *ktType
	init     *ktN
	get, set *ktFun
	mut      bool
	priv     bool
	privSet  bool
	line     int
}

type ktEntry struct {
	name string
	args []*ktN
}

type ktClass struct {
	name    string
	kind    string // class, enum, object
	data    bool
	params  []*ktParam
	entries []ktEntry
	props   []*ktProp
	funs    []*ktFun
	comp    *ktClass
	nested  []*ktClass
	priv    bool
	line    int
}

type ktFile struct {
	path    string
	pkg     string
	imports []string
	classes []*ktClass
	funs    []*ktFun
	props   []*ktProp
}

type ktParser struct {
	t []ktTok
	i int
}

func (p *ktParser) cur() ktTok { return p.t[p.i] }
func (p *ktParser) is(s string) bool {
	c := p.cur()
	return c.s == s && (c.k == 'o' || c.k == 'i')
}

func (p *ktParser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}

func (p *ktParser) want(s string) {
	if !p.accept(s) {
		panic(ktReject{fmt.Sprintf("line %d: expected %q before %q", p.cur().line, s, p.cur().s)})
	}
}

func (p *ktParser) ident() string {
	if p.cur().k != 'i' {
		panic(ktReject{fmt.Sprintf("line %d: a name was expected before %q", p.cur().line, p.cur().s)})
	}
	p.i++
	return p.t[p.i-1].s
}

func (p *ktParser) unsup(what string) {
	panic(ktUnsup{fmt.Sprintf("%s in line %d", what, p.cur().line)})
}

func ktParse(path, text string) *ktFile {
	p := &ktParser{t: ktLex(text)}
	f := &ktFile{path: path}
	var open []ktTok
	for _, t := range p.t {
		if t.k == 's' || len(t.s) != 1 {
			continue
		}
		switch t.s[0] {
		case '(', '[', '{':
			open = append(open, t)
		case ')', ']', '}':
			if len(open) == 0 || open[len(open)-1].s[0] != map[byte]byte{')': '(', ']': '[', '}': '{'}[t.s[0]] {
				panic(ktReject{fmt.Sprintf("line %d: %q closes nothing", t.line, t.s)})
			}
			open = open[:len(open)-1]
		}
	}
	if len(open) > 0 {
		panic(ktReject{fmt.Sprintf("line %d: %q is never closed", open[len(open)-1].line, open[len(open)-1].s)})
	}
	for p.is("@") {
		p.annotation()
	}
	if p.accept("package") {
		f.pkg = p.dotted()
		p.accept(";")
	}
	for p.accept("import") {
		n := p.dotted()
		if p.accept("as") {
			p.unsup("import as")
		}
		f.imports = append(f.imports, n)
		p.accept(";")
	}
	for p.cur().k != 'e' {
		p.member(func(c *ktClass) { f.classes = append(f.classes, c) }, func(x *ktFun) { f.funs = append(f.funs, x) }, func(x *ktProp) { f.props = append(f.props, x) }, nil)
	}
	return f
}

func (p *ktParser) dotted() string {
	s := p.ident()
	for p.is(".") && !p.cur().nl {
		p.i++
		if p.accept("*") {
			return s + ".*"
		}
		s += "." + p.ident()
	}
	return s
}

func (p *ktParser) annotation() {
	p.want("@")
	p.dotted()
	if p.is(":") {
		p.i++
		p.dotted()
	}
	if p.is("(") && !p.cur().nl {
		p.skipParens()
	}
}

func (p *ktParser) skipParens() {
	n := 0
	for {
		switch {
		case p.is("("):
			n++
		case p.is(")"):
			n--
		case p.cur().k == 'e':
			panic(ktReject{"unclosed ("})
		}
		p.i++
		if n == 0 {
			return
		}
	}
}

var ktMods = map[string]bool{"private": true, "public": true, "internal": true, "protected": true, "override": true, "const": true, "inline": true, "final": true, "open": true, "operator": true, "infix": true, "data": true, "enum": true, "companion": true, "lateinit": true, "tailrec": true, "sealed": true, "abstract": true, "value": true, "inner": true}

func (p *ktParser) member(cls func(*ktClass), fun func(*ktFun), prop func(*ktProp), comp func(*ktClass)) {
	mods := map[string]bool{}
	line := p.cur().line
	for {
		if p.is("@") {
			p.annotation()
			continue
		}
		c := p.cur()
		if c.k == 'i' && ktMods[c.s] && p.t[p.i+1].k == 'i' {
			mods[c.s] = true
			p.i++
			continue
		}
		break
	}
	for _, m := range []string{"lateinit", "sealed", "abstract", "value", "inner", "infix", "operator"} {
		if mods[m] {
			p.unsup(m)
		}
	}
	switch {
	case p.accept(";"):
	case p.accept("class"):
		c := &ktClass{kind: "class", line: line, priv: mods["private"], data: mods["data"]}
		if mods["enum"] {
			c.kind = "enum"
		}
		c.name = p.ident()
		if p.is("<") {
			p.unsup("generic class")
		}
		if p.is("private") || p.is("internal") || p.is("constructor") {
			p.unsup("constructor modifiers")
		}
		if p.accept("(") {
			c.params = p.params(true)
		}
		if p.is(":") {
			p.unsup("supertypes")
		}
		if p.is("{") {
			p.classBody(c)
		}
		cls(c)
	case p.accept("object"):
		c := &ktClass{kind: "object", line: line, priv: mods["private"]}
		if p.cur().k == 'i' && !p.is("{") {
			c.name = p.ident()
		}
		if p.is(":") {
			p.unsup("supertypes")
		}
		p.classBody(c)
		if mods["companion"] {
			if comp == nil {
				panic(ktReject{"companion object outside of a class"})
			}
			comp(c)
		} else {
			cls(c)
		}
	case p.accept("fun"):
		f := &ktFun{priv: mods["private"], line: line}
		if p.is("<") {
			p.unsup("generic function")
		}
		f.name = p.ident()
		if p.is(".") {
			p.unsup("extension function")
		}
		p.want("(")
		f.params = p.params(false)
		if p.accept(":") {
			f.ret = p.typ()
		}
		if p.accept("=") {
			f.expr = true
			f.body = p.expr()
		} else {
			f.body = p.block()
		}
		fun(f)
	case p.is("val") || p.is("var"):
		x := &ktProp{mut: p.is("var"), priv: mods["private"], line: line}
		p.i++
		x.name = p.ident()
		if p.is(".") {
			p.unsup("extension property")
		}
		if p.accept(":") {
			x.ty = p.typ()
		}
		if p.accept("=") {
			x.init = p.expr()
		}
		if p.is("by") {
			p.unsup("delegated property")
		}
		p.accept(";")
		for {
			j := p.i
			priv := p.accept("private")
			switch {
			case p.is("get") && p.t[p.i+1].s == "(":
				p.i += 2
				p.want(")")
				x.get = &ktFun{name: "get", line: p.cur().line}
				if p.accept(":") {
					p.typ()
				}
				if p.accept("=") {
					x.get.expr = true
					x.get.body = p.expr()
				} else {
					x.get.body = p.block()
				}
				continue
			case p.is("set") && p.t[p.i+1].s == "(":
				p.i += 2
				x.set = &ktFun{name: "set", line: p.cur().line}
				n := p.ident()
				if p.accept(":") {
					p.typ()
				}
				p.want(")")
				x.set.params = []*ktParam{{name: n}}
				if p.accept("=") {
					x.set.expr = true
					x.set.body = p.expr()
				} else {
					x.set.body = p.block()
				}
				x.privSet = priv
				continue
			case p.is("set") && priv:
				p.i++
				x.privSet = true
				continue
			}
			p.i = j
			break
		}
		prop(x)
	default:
		p.unsup(fmt.Sprintf("declaration %q", p.cur().s))
	}
}

func (p *ktParser) classBody(c *ktClass) {
	p.want("{")
	if c.kind == "enum" {
		for p.cur().k == 'i' && !p.is("companion") && !p.is("fun") && !p.is("val") && !p.is("var") {
			e := ktEntry{name: p.ident()}
			if p.accept("(") {
				e.args = p.args(")", nil)
			}
			if p.is("{") {
				p.unsup("enum entry with a body")
			}
			c.entries = append(c.entries, e)
			if !p.accept(",") {
				break
			}
		}
		if !p.accept(";") && !p.is("}") {
			panic(ktReject{fmt.Sprintf("line %d: enum entries have to end in ;", p.cur().line)})
		}
	}
	for !p.accept("}") {
		if p.cur().k == 'e' {
			panic(ktReject{"unclosed {"})
		}
		if p.is("init") && p.t[p.i+1].s == "{" {
			p.unsup("init block")
		}
		p.member(func(n *ktClass) { c.nested = append(c.nested, n) }, func(f *ktFun) { c.funs = append(c.funs, f) }, func(x *ktProp) { c.props = append(c.props, x) }, func(n *ktClass) { c.comp = n })
	}
}

func (p *ktParser) params(ctor bool) []*ktParam {
	var out []*ktParam
	for !p.accept(")") {
		x := &ktParam{}
		for p.is("@") {
			p.annotation()
		}
		for ctor && (p.is("private") || p.is("public") || p.is("internal")) {
			x.priv = x.priv || p.is("private")
			p.i++
		}
		if ctor && p.is("val") {
			x.prop = 'v'
			p.i++
		} else if ctor && p.is("var") {
			x.prop = 'r'
			p.i++
		}
		if p.is("vararg") || p.is("noinline") || p.is("crossinline") {
			p.unsup(p.cur().s)
		}
		x.name = p.ident()
		p.want(":")
		x.ty = p.typ()
		if p.accept("=") {
			x.def = p.expr()
		}
		out = append(out, x)
		if !p.accept(",") {
			p.want(")")
			break
		}
	}
	return out
}

func (p *ktParser) typ() *ktType {
	if p.is("(") {
		p.unsup("function type")
	}
	t := &ktType{name: p.dotted()}
	if p.accept("<") {
		for {
			if p.is("out") || p.is("in") || p.is("*") {
				p.unsup("projection")
			}
			t.args = append(t.args, p.typ())
			if !p.accept(",") {
				break
			}
		}
		p.want(">")
	}
	if p.is("?") && !p.cur().nl {
		p.i++
		t.null = true
	}
	return t
}

func (p *ktParser) node(k, s string, kids ...*ktN) *ktN {
	return &ktN{k: k, s: s, kids: kids, line: p.cur().line}
}

func (p *ktParser) block() *ktN {
	p.want("{")
	n := p.node("block", "")
	for !p.accept("}") {
		if p.cur().k == 'e' {
			panic(ktReject{"unclosed {"})
		}
		if p.accept(";") {
			continue
		}
		s := p.stmt()
		n.kids = append(n.kids, s)
		if !p.cur().nl && !p.is(";") && !p.is("}") {
			panic(ktReject{fmt.Sprintf("line %d: unexpected %q after a statement", p.cur().line, p.cur().s)})
		}
	}
	return n
}

// body is a block or one statement.
func (p *ktParser) body() *ktN {
	if p.is("{") {
		return p.block()
	}
	if p.is(";") {
		return p.node("block", "")
	}
	n := p.node("block", "")
	n.kids = append(n.kids, p.stmt())
	return n
}

func (p *ktParser) stmt() *ktN {
	for p.is("@") {
		p.annotation()
	}
	c := p.cur()
	if c.k == 'i' {
		switch c.s {
		case "val", "var":
			n := p.node("local", "")
			n.flag = c.s == "var"
			p.i++
			if p.is("(") {
				p.unsup("destructuring")
			}
			n.s = p.ident()
			if p.accept(":") {
				n.ty = p.typ()
			}
			if p.accept("=") {
				n.kids = append(n.kids, p.expr())
			}
			return n
		case "while":
			n := p.node("while", "")
			p.i++
			p.want("(")
			cond := p.expr()
			p.want(")")
			n.kids = []*ktN{cond, p.body()}
			return n
		case "do":
			n := p.node("do", "")
			p.i++
			b := p.body()
			p.want("while")
			p.want("(")
			cond := p.expr()
			p.want(")")
			n.kids = []*ktN{cond, b}
			return n
		case "for":
			n := p.node("for", "")
			p.i++
			p.want("(")
			n.s = p.ident()
			if p.accept(":") {
				n.ty = p.typ()
			}
			p.want("in")
			e := p.expr()
			p.want(")")
			n.kids = []*ktN{e, p.body()}
			return n
		case "fun", "class", "object":
			if !(c.s == "object" && p.t[p.i+1].s == ":") {
				p.unsup("local declaration")
			}
		}
	}
	e := p.expr()
	for _, op := range []string{"=", "+=", "-=", "*=", "/=", "%="} {
		if p.is(op) {
			n := p.node("assign", op)
			p.i++
			n.kids = []*ktN{e, p.expr()}
			return n
		}
	}
	return e
}

func (p *ktParser) expr() *ktN { return p.or() }

func (p *ktParser) binary(next func() *ktN, sameLine bool, ops ...string) *ktN {
	l := next()
	for {
		c := p.cur()
		hit := ""
		for _, o := range ops {
			if p.is(o) && c.k == 'o' && !(c.nl && sameLine) {
				hit = o
			}
		}
		if hit == "" {
			return l
		}
		n := p.node("bin", hit)
		p.i++
		n.kids = []*ktN{l, next()}
		l = n
	}
}

func (p *ktParser) or() *ktN  { return p.binary(p.and, false, "||") }
func (p *ktParser) and() *ktN { return p.binary(p.equality, false, "&&") }
func (p *ktParser) equality() *ktN {
	return p.binary(p.comparison, true, "===", "!==", "==", "!=")
}

func (p *ktParser) comparison() *ktN {
	return p.binary(p.named, true, "<=", ">=", "<", ">")
}

func (p *ktParser) named() *ktN {
	l := p.elvis()
	for !p.cur().nl {
		not := p.is("!") && (p.t[p.i+1].s == "in" || p.t[p.i+1].s == "is") && p.t[p.i+1].k == 'i'
		j := p.i
		if not {
			p.i++
		}
		switch {
		case p.is("is") && p.cur().k == 'i':
			n := p.node("is", "", l)
			p.i++
			n.flag, n.ty = not, p.typ()
			l = n
			continue
		case p.is("in") && p.cur().k == 'i':
			n := p.node("in", "")
			p.i++
			n.flag = not
			n.kids = []*ktN{l, p.elvis()}
			l = n
			continue
		}
		p.i = j
		break
	}
	return l
}

func (p *ktParser) elvis() *ktN { return p.binary(p.infix, false, "?:") }

func (p *ktParser) infix() *ktN {
	l := p.rng()
	for {
		c := p.cur()
		if c.k != 'i' || c.nl || c.s == "else" || c.s == "in" || c.s == "is" || c.s == "as" || c.s == "while" {
			return l
		}
		n := p.node("infix", c.s)
		p.i++
		n.kids = []*ktN{l, p.rng()}
		l = n
	}
}

func (p *ktParser) rng() *ktN      { return p.binary(p.additive, true, "..", "..<") }
func (p *ktParser) additive() *ktN { return p.binary(p.mult, true, "+", "-") }
func (p *ktParser) mult() *ktN     { return p.binary(p.as, true, "*", "/", "%") }

func (p *ktParser) as() *ktN {
	l := p.prefix()
	for p.is("as") && p.cur().k == 'i' && !p.cur().nl {
		p.i++
		if p.is("?") {
			p.unsup("as?")
		}
		n := p.node("as", "", l)
		n.ty = p.typ()
		l = n
	}
	return l
}

func (p *ktParser) prefix() *ktN {
	c := p.cur()
	if c.k == 'o' {
		switch c.s {
		case "-", "+", "!", "++", "--":
			n := p.node("pre", c.s)
			p.i++
			n.kids = []*ktN{p.prefix()}
			return n
		}
	}
	return p.postfix()
}

func (p *ktParser) args(end string, first *ktN) []*ktN {
	var out []*ktN
	for !p.accept(end) {
		n := p.node("arg", "")
		if p.cur().k == 'i' && p.t[p.i+1].s == "=" && p.t[p.i+1].k == 'o' {
			n.s = p.ident()
			p.i++
		}
		if p.is("*") {
			p.unsup("spread")
		}
		n.kids = []*ktN{p.expr()}
		out = append(out, n)
		if !p.accept(",") {
			p.want(end)
			break
		}
	}
	return out
}

func (p *ktParser) lambda() *ktN {
	n := p.node("lambda", "")
	// parameters before an arrow
	j := p.i + 1
	var names []string
	for p.t[j].k == 'i' {
		names = append(names, p.t[j].s)
		j++
		if p.t[j].s != "," {
			break
		}
		j++
	}
	if len(names) > 0 && p.t[j].s == "->" {
		if len(names) > 1 {
			p.unsup("lambda of several parameters")
		}
		n.s = names[0]
		p.t[j] = ktTok{'o', "{", false, p.t[j].line}
		p.i = j
	}
	n.kids = []*ktN{p.block()}
	return n
}

func (p *ktParser) postfix() *ktN {
	e := p.primary()
	for {
		c := p.cur()
		if c.k != 'o' {
			return e
		}
		switch {
		case c.s == "." || c.s == "?.":
			p.i++
			n := p.node("dot", p.ident(), e)
			n.flag = c.s == "?."
			e = n
		case c.s == "<" && !c.nl && (e.k == "name" || e.k == "dot") && p.typeArgs():
			j := p.i
			p.i++
			n := p.node("targs", "", e)
			n.ty = p.typ()
			for p.accept(",") {
				p.typ()
			}
			p.want(">")
			if !p.is("(") {
				p.i = j
				return e
			}
			e = n
		case c.s == "(" && !c.nl:
			p.i++
			n := p.node("call", "", e)
			n.kids = append(n.kids, p.args(")", nil)...)
			if p.is("{") && !p.cur().nl {
				a := p.node("arg", "", p.lambda())
				n.kids = append(n.kids, a)
			}
			e = n
		case c.s == "{" && !c.nl && (e.k == "name" || e.k == "dot" || e.k == "targs") && e.s != "else":
			n := p.node("call", "", e)
			n.kids = append(n.kids, p.node("arg", "", p.lambda()))
			e = n
		case c.s == "[" && !c.nl:
			p.i++
			n := p.node("index", "", e)
			a := p.args("]", nil)
			if len(a) != 1 {
				p.unsup("index of several parts")
			}
			n.kids = append(n.kids, a[0].kids[0])
			e = n
		case c.s == "!!" && !c.nl:
			p.i++
			e = p.node("nn", "", e)
		case (c.s == "++" || c.s == "--") && !c.nl:
			p.i++
			e = p.node("post", c.s, e)
		case c.s == "::":
			p.unsup("::")
		default:
			return e
		}
	}
}

// typeArgs looks whether < begins type arguments of a call.
func (p *ktParser) typeArgs() bool {
	depth := 0
	for j := p.i; ; j++ {
		t := p.t[j]
		switch {
		case t.k == 'o' && t.s == "<":
			depth++
		case t.k == 'o' && t.s == ">":
			depth--
			if depth == 0 {
				return p.t[j+1].k == 'o' && (p.t[j+1].s == "(" || p.t[j+1].s == "{")
			}
		case t.k == 'i', t.k == 'o' && (t.s == "," || t.s == "?" || t.s == "."):
		default:
			return false
		}
	}
}

func (p *ktParser) primary() *ktN {
	c := p.cur()
	n := p.node("", c.s)
	switch c.k {
	case 'n':
		p.i++
		n.k = "num"
		return n
	case 's':
		p.i++
		n.k = "str"
		return n
	case 'o':
		if c.s == "(" {
			p.i++
			e := p.expr()
			p.want(")")
			return p.node("par", "", e)
		}
		if c.s == "{" {
			return p.lambda()
		}
	case 'i':
		switch c.s {
		case "if":
			n.k = "if"
			p.i++
			p.want("(")
			cond := p.expr()
			p.want(")")
			n.kids = []*ktN{cond, p.body()}
			j := p.i
			p.accept(";")
			if p.is("else") && p.cur().k == 'i' {
				p.i++
				n.kids = append(n.kids, p.body())
			} else {
				p.i = j
			}
			return n
		case "when":
			n.k = "when"
			p.i++
			n.kids = []*ktN{nil}
			if p.accept("(") {
				if p.is("val") {
					p.unsup("when (val …)")
				}
				n.kids[0] = p.expr()
				p.want(")")
			}
			p.want("{")
			for !p.accept("}") {
				br := p.node("branch", "")
				if p.is("else") && p.t[p.i+1].s == "->" {
					p.i++
				} else {
					for {
						var x *ktN
						switch {
						case n.kids[0] != nil && p.is("in"):
							p.i++
							x = p.node("in", "", nil, p.elvis())
						case n.kids[0] != nil && (p.is("is") || p.is("!")):
							p.unsup("is in when")
						default:
							x = p.expr()
						}
						br.kids = append(br.kids, x)
						if !p.accept(",") {
							break
						}
					}
				}
				p.want("->")
				br.kids = append(br.kids, p.body())
				n.kids = append(n.kids, br)
				p.accept(";")
			}
			return n
		case "return":
			n.k = "return"
			p.i++
			if p.is("@") {
				p.unsup("labelled return")
			}
			if !p.cur().nl && !p.is("}") && !p.is(";") && !p.is(")") {
				n.kids = []*ktN{p.expr()}
			}
			return n
		case "break", "continue":
			n.k = c.s
			p.i++
			if p.is("@") && !p.cur().nl {
				p.unsup("label")
			}
			return n
		case "throw":
			n.k = "throw"
			p.i++
			n.kids = []*ktN{p.expr()}
			return n
		case "try", "object", "super":
			p.unsup(c.s)
		case "this", "null", "true", "false":
			n.k = c.s
			p.i++
			if p.is("@") && !p.cur().nl {
				p.unsup("label")
			}
			return n
		}
		p.i++
		n.k = "name"
		return n
	}
	panic(ktReject{fmt.Sprintf("line %d: unexpected %q", c.line, c.s)})
}
