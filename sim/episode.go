package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// ---- episodes: one simulated run, written out in full -------------------------
//
// An episode is the complete list of what the simulator did: which nodes existed,
// what each was told, what the medium between them did to the bytes. It is made by
// a seeded generator before anything runs and executed step by step; executing the
// same episode again gives the same run. Removing steps leaves a valid episode, so
// it can be minimised by deleting.

type NodeSpec struct {
	V int `json:"v"` // variant
	U int `json:"u"` // universe
	S int `json:"s"` // struct
}

type LinkSpec struct {
	A     int  `json:"a"`
	B     int  `json:"b"`
	Dgram bool `json:"dgram,omitempty"`
	Off   int  `json:"off,omitempty"` // where in its receive buffer the receiver keeps the stream
	Api   int  `json:"api,omitempty"`
	Fwd   int  `json:"fwd,omitempty"` // the receiver sends every frame on over link Fwd-1
}

type Mut struct {
	Op  string `json:"op"` // xor, set, trunc, append, insert, delete
	Pos int    `json:"pos,omitempty"`
	N   int    `json:"n,omitempty"`
	Hex string `json:"hex,omitempty"`
}

type Step struct {
	Op   string `json:"op"`
	T    int64  `json:"t,omitempty"` // simulated time in microseconds
	N    int    `json:"n,omitempty"`
	M    int    `json:"m,omitempty"` // second node
	L    int    `json:"l,omitempty"`
	K    int    `json:"k,omitempty"`
	Api  int    `json:"api,omitempty"`
	Pre  int    `json:"pre,omitempty"`
	Post int    `json:"post,omitempty"`
	Fill int    `json:"fill,omitempty"` // what dirty memory holds
	Acc  bool   `json:"acc,omitempty"`
	V    *Val   `json:"v,omitempty"`
	Mut  []Mut  `json:"mut,omitempty"`
	Tail string `json:"tail,omitempty"`
	Lax  bool   `json:"lax,omitempty"`
	Par  []Call `json:"par,omitempty"`   // calls that overlap
	Seq  []int  `json:"sched,omitempty"` // who runs: thread, number of points, thread, ...
}

// Call is one of several calls running at once.
type Call struct {
	Op    string `json:"op"` // E, D, Z, S
	N     int    `json:"n"`
	V     *Val   `json:"v,omitempty"`
	Share int    `json:"share,omitempty"` // reads the buffer of call Share-1
	Pre   int    `json:"pre,omitempty"`
	Post  int    `json:"post,omitempty"`
	Fill  int    `json:"fill,omitempty"`
	Api   int    `json:"api,omitempty"`
}

type Episode struct {
	Prop  string     `json:"prop"`
	Index int        `json:"index"`
	Nodes []NodeSpec `json:"nodes"`
	Links []LinkSpec `json:"links,omitempty"`
	Steps []Step     `json:"steps"`
}

// Violation is a property broken at a step.
type Violation struct {
	Step int    `json:"step"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

func (v *Violation) Error() string { return fmt.Sprintf("step %d: %s: %s", v.Step, v.Kind, v.Msg) }

type node struct {
	t    *typ
	cur  *Val   // what the node holds, when known
	last []byte // what it encoded last
	sent *Val   // the value in last
	up   bool
	view bool // the value may live in the receive buffer
}

type frame struct {
	b []byte
	v *Val // value as sent
}

type link struct {
	LinkSpec
	t       *typ
	q       []byte  // stream: bytes in flight
	dq      []frame // datagrams in flight
	rx      []byte  // received, not yet consumed
	expect  []frame // stream: frames sent and not yet delivered
	entered int     // frames of expect that are in q or rx since the last reset
}

type counters struct {
	ops    map[string]int64
	faults map[string]int64
	frames int64
	checks int64
	simus  int64
}

func newCounters() *counters {
	return &counters{ops: map[string]int64{}, faults: map[string]int64{}}
}

func (c *counters) add(o *counters) {
	for k, v := range o.ops {
		c.ops[k] += v
	}
	for k, v := range o.faults {
		c.faults[k] += v
	}
	c.frames += o.frames
	c.checks += o.checks
	c.simus += o.simus
}

type runner struct {
	p      *Pool
	sh     *shard
	ep     *Episode
	nodes  []*node
	links  []*link
	step   int
	c      *counters
	trace  bool
	whole  bool // calls do not overlap: the code was seen to wait for something
	states map[uint64]bool
}

type bad struct{ v *Violation }

func (x *runner) fail(kind, f string, a ...any) {
	panic(bad{&Violation{x.step, kind, fmt.Sprintf(f, a...)}})
}

func (x *runner) who(n *node) string {
	return fmt.Sprintf("%s %s [%s]", n.t.V.Lang, n.t.S.Name, strings.Join(n.t.V.Opts, " "))
}

// do sends one command to the node's process. A process that dies or hangs is a
// violation of whatever property is being checked: no property allows it.
func (x *runner) do(n *node, f string, a ...any) string {
	cmd := fmt.Sprintf(f, a...)
	r, err := x.sh.do(n.t.V, cmd)
	if x.trace {
		fmt.Printf("      %s <- %s\n      -> %s %v\n", workerKey(n.t.V), trunc(cmd, 300), trunc(r, 300), err)
	}
	if err != nil {
		switch e := err.(type) {
		case infraErr, ktUnsup:
			panic(e)
		}
		kind := "crash"
		if e, ok := err.(*replyErr); ok {
			kind = e.Kind
		}
		x.fail(kind, "%s: process died on %q: %v", x.who(n), trunc(cmd, 120), err)
	}
	return r
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// num parses "ok <n>"; thrown reports an exception.
func num(r string) (n int64, thrown bool, ok bool) {
	if strings.HasPrefix(r, "ex") {
		return 0, true, true
	}
	if !strings.HasPrefix(r, "ok ") {
		return 0, false, false
	}
	n, ok = atoi(r[3:])
	return n, false, ok
}

func (x *runner) num(n *node, f string, a ...any) (int64, bool) {
	r := x.do(n, f, a...)
	v, thrown, ok := num(r)
	if !ok {
		x.fail("bad-reply", "%s: %q", x.who(n), r)
	}
	return v, thrown
}

func (x *runner) run() (viol *Violation, err error) {
	defer func() {
		if e := recover(); e != nil {
			switch b := e.(type) {
			case bad:
				viol = b.v
				if x.blocked(b.v) {
					// code that waits (for a lock another call holds, say) is not at fault
					// when it is made to wait for ever; such calls are run whole
					y := &runner{p: x.p, sh: x.sh, ep: x.ep, c: x.c, states: x.states, trace: x.trace, whole: true}
					viol, err = y.run()
				}
			case infraErr:
				err = b
			case ktUnsup: // nothing can be said
				x.p.note(b.Error())
			default:
				panic(e)
			}
		}
	}()
	for i, s := range x.ep.Nodes {
		t := x.p.Types[tidOf(s.V, s.U, s.S)]
		if t == nil {
			return nil, fmt.Errorf("episode names unknown type %v", s)
		}
		n := &node{t: t}
		x.nodes = append(x.nodes, n)
		_ = i
	}
	for _, l := range x.ep.Links {
		x.links = append(x.links, &link{LinkSpec: l, t: x.nodes[l.B].t})
	}
	var last int64
	for i := range x.ep.Steps {
		x.step = i
		s := &x.ep.Steps[i]
		if s.T > last {
			last = s.T
		}
		x.c.ops[s.Op]++
		if x.trace {
			fmt.Printf("  step %d %s\n", i, jsonStr(s))
		}
		x.one(s)
	}
	x.c.simus += last
	return nil, nil
}

// slot and buffer numbers of a node inside its process
func bufOf(n int, k int) int { return n*2 + k }

func (x *runner) ensure(i int) *node {
	n := x.nodes[i]
	if !n.up {
		x.mk(i)
	}
	return n
}

func (x *runner) mk(i int) {
	n := x.nodes[i]
	if r := x.do(n, "N %d %d", i, n.t.ID); r != "ok" {
		x.fail("create", "%s: creating an object failed: %s", x.who(n), r)
	}
	n.up, n.cur, n.last, n.view = true, nil, nil, false
}

func (x *runner) set(i int, v *Val, acc bool) {
	n := x.ensure(i)
	op := "F"
	if acc {
		op = "X"
	}
	if r := x.do(n, "%s %d %s", op, i, n.t.U.tokenString(n.t.S, v)); r != "ok" {
		x.fail("set", "%s: setting fields failed: %s", x.who(n), r)
	}
	n.cur, n.view = v, false
}

// dump reads a node's fields back and compares them.
func (x *runner) dump(i int, want *Val, acc bool, what string) {
	n := x.nodes[i]
	op := "P"
	if acc {
		op = "G"
	}
	r := x.do(n, "%s %d", op, i)
	got := strings.TrimSpace(strings.TrimPrefix(r, "ok"))
	w := n.t.U.tokenString(n.t.S, want)
	x.c.checks++
	if got != w {
		x.fail("value", "%s: %s: fields are [%s], want [%s]", x.who(n), what, trunc(got, 400), trunc(w, 400))
	}
}

func dirt(fill, n int) []byte {
	out := make([]byte, n)
	r := NewRNG(uint64(fill))
	for i := range out {
		switch fill {
		case 0:
		case 1:
			out[i] = 0xff
		default:
			out[i] = byte(r.U64())
		}
	}
	return out
}

// sameFrame compares with a reference frame, leaving out padding bits.
func sameFrame(got []byte, f *Frame) bool {
	if len(got) != len(f.Bytes) {
		return false
	}
	for i := range got {
		if (got[i]^f.Bytes[i])&^f.Void[i] != 0 {
			return false
		}
	}
	return true
}

const (
	chkBytes  = 1 // the frame is the documented one
	chkSize   = 2 // encode_size, the returned length and the frame agree
	chkWindow = 4 // nothing outside the frame is touched
)

// enc encodes the node's value. K is the set of checks.
func (x *runner) enc(s *Step) {
	n := x.ensure(s.N)
	if n.cur == nil {
		return
	}
	ref := n.t.U.Encode(n.t.S, n.cur)
	N := len(ref.Bytes)
	size := int64(N)
	if s.K&chkSize != 0 {
		v, th := x.num(n, "S %d", s.N)
		x.c.checks += 2
		fixed := fmt.Sprintf("ok %d %d", pickInt(n.t.U.dynamic(n.t.S)), (n.t.U.fixedBits(n.t.S)+7)/8)
		if r := x.do(n, "I %d", s.N); r != fixed {
			x.fail("size", "%s: dynamic() and size() say %q, want %q", x.who(n), r, fixed)
		}
		if th || v != size {
			x.fail("encode_size", "%s: encode_size is %d (thrown=%v), the frame of %s has %d bytes", x.who(n), v, th, n.t.S.Name, N)
		}
	}
	var got []byte
	b := bufOf(s.N, 0)
	if s.Op == "encw" {
		img := dirt(s.Fill, s.Pre+N+s.Post)
		x.do(n, "B %d x%x", b, img)
		v, th := x.num(n, "E %d %d %d %d", s.N, b, s.Pre, s.Api)
		r := x.do(n, "R %d", b)
		after, err := hex.DecodeString(strings.TrimPrefix(r, "ok x"))
		if err != nil {
			x.fail("bad-reply", "%s: %q", x.who(n), r)
		}
		if th {
			x.fail("encode", "%s: encoding into a window of %d bytes at %d threw", x.who(n), N+s.Post, s.Pre)
		}
		if s.K&chkSize != 0 && v != size {
			// a dynamic frame may also report the position after it
			x.fail("encode", "%s: encode returned %d, the frame has %d bytes", x.who(n), v, N)
		}
		if len(after) != len(img) {
			if s.K&chkWindow != 0 {
				x.fail("window", "%s: the buffer changed size from %d to %d", x.who(n), len(img), len(after))
			}
			return
		}
		got = after[s.Pre : s.Pre+N]
		if s.K&chkWindow != 0 {
			x.c.checks++
			for i := range img {
				if (i < s.Pre || i >= s.Pre+N) && img[i] != after[i] {
					x.fail("window", "%s: encoding %d bytes at offset %d changed byte %d from %02x to %02x", x.who(n), N, s.Pre, i, img[i], after[i])
				}
			}
		}
	} else {
		v, th := x.num(n, "A %d %d %d", s.N, b, s.Api)
		if th {
			x.fail("encode", "%s: encode threw", x.who(n))
		}
		if s.K&chkSize != 0 && v != size {
			x.fail("encode", "%s: encode returned %d, the frame has %d bytes", x.who(n), v, N)
		}
		r := x.do(n, "R %d", b)
		h, err := hex.DecodeString(strings.TrimPrefix(r, "ok x"))
		if err != nil {
			x.fail("bad-reply", "%s: %q", x.who(n), r)
		}
		got = h
	}
	if s.K&(chkBytes|chkWindow) != 0 {
		x.c.checks++
		if !sameFrame(got, ref) {
			x.fail("bytes", "%s: encoded %x, the documented frame is %x (padding %x) for value [%s]", x.who(n), clip(got), clip(ref.Bytes), clip(ref.Void), trunc(n.t.U.tokenString(n.t.S, n.cur), 300))
		}
	}
	n.last, n.sent = got, n.cur
}

func clip(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

// rebuf replaces a node's receive buffer; a decoder that does not copy loses what
// it decoded from the old one.
func (x *runner) rebuf(i int, buf []byte) {
	n := x.nodes[i]
	if n.view {
		n.cur, n.view = nil, false
	}
	x.do(n, "B %d x%x", bufOf(i, 1), buf)
}

// got notes that node i now holds v, decoded from its receive buffer.
func (x *runner) got(i int, v *Val) {
	n := x.nodes[i]
	n.cur, n.view = v, !n.t.V.Copies()
}

// probe asks for decode_size of buf[off:].
func (x *runner) probe(i int, buf []byte, off, api int) (int64, bool) {
	n := x.nodes[i]
	x.rebuf(i, buf)
	return x.num(n, "Z %d %d %d %d", n.t.ID, bufOf(i, 1), off, api)
}

// pump is the receiver's loop: ask whether a frame is complete, take it, go on.
func (x *runner) pump(l *link) {
	n := x.ensure(l.B)
	for rounds := 0; ; rounds++ {
		if len(l.rx) == 0 {
			return
		}
		buf := append(dirt(7, l.Off), l.rx...)
		r, th := x.probe(l.B, buf, l.Off, l.Api)
		want := l.expect[0].b
		x.c.checks++
		if th {
			x.fail("framing", "%s: decode_size threw on %d of %d bytes of a frame", x.who(n), len(l.rx), len(want))
		}
		if r <= 0 {
			if len(l.rx) >= len(want) {
				x.fail("framing", "%s: decode_size says %d although the frame of %d bytes is complete (%d bytes held)", x.who(n), r, len(want), len(l.rx))
			}
			if -r <= int64(len(l.rx)) || -r > int64(len(want)) {
				x.fail("framing", "%s: decode_size says %d with %d of %d bytes held", x.who(n), r, len(l.rx), len(want))
			}
			return
		}
		if r != int64(len(want)) || len(l.rx) < len(want) {
			x.fail("framing", "%s: decode_size says %d with %d of %d bytes held", x.who(n), r, len(l.rx), len(want))
		}
		d, th := x.num(n, "D %d %d %d %d", l.B, bufOf(l.B, 1), l.Off, l.Api)
		if th || d != r {
			x.fail("decode", "%s: decode of a complete frame returned %d (thrown=%v), want %d", x.who(n), d, th, r)
		}
		v := n.t.U.expected(n.t.S, l.expect[0].v)
		x.dump(l.B, v, false, "received")
		x.got(l.B, v)
		l.rx = append([]byte{}, l.rx[r:]...)
		l.expect = l.expect[1:]
		l.entered--
		x.c.frames++
		if l.Fwd > 0 { // a relay sends on what it understood
			x.enc(&Step{Op: "enc", N: l.B, K: chkBytes | chkSize})
			x.send(x.links[l.Fwd-1], frame{n.last, n.sent})
		}
	}
}

func (l *link) B2(x *runner) *node { return x.nodes[l.B] }

// resend puts the frames a reset lost back into flight (the sender kept them).
func (l *link) resend() {
	l.q, l.rx = nil, nil
	for _, f := range l.expect {
		l.q = append(l.q, f.b...)
	}
	l.entered = len(l.expect)
}

func (x *runner) send(l *link, f frame) {
	if l.Dgram {
		l.dq = append(l.dq, f)
		return
	}
	l.expect = append(l.expect, f)
	l.q = append(l.q, f.b...)
	l.entered++
}

// note records a situation reached.
func (x *runner) note(n *node, s *Step, a, b int) {
	x.states[seedOf(n.t.ID, s.Op, a, b)] = true
}

func (x *runner) one(s *Step) {
	switch s.Op {
	case "rx":
		l := x.links[s.L]
		x.note(l.B2(x), s, len(l.rx), s.K)
	case "dg":
		l := x.links[s.L]
		x.note(l.B2(x), s, s.M, s.Post)
	case "dec":
		p := 0
		if len(s.Mut) > 0 {
			p = s.Mut[0].Pos + 1000*len(s.Mut[0].Op)
		}
		x.note(x.nodes[s.N], s, p, s.Api)
	default:
		if s.N < len(x.nodes) {
			x.note(x.nodes[s.N], s, s.K, s.Api+100*s.Pre)
		}
	}
	switch s.Op {
	case "mk":
		x.mk(s.N)
	case "crash": // the process loses its objects; the medium loses what it had received
		x.c.faults["node crash and restart"]++
		x.mk(s.N)
		for _, l := range x.links {
			if l.B == s.N {
				l.resend()
			}
		}
	case "set":
		x.set(s.N, s.V, s.Acc)
	case "cget":
		x.cget(s)
	case "consts":
		x.consts(s)
	case "cset":
		x.cset(s)
	case "get":
		n := x.nodes[s.N]
		if n.up && n.cur != nil {
			x.dump(s.N, n.cur, s.Acc, "read back")
		}
	case "enc", "encw":
		x.enc(s)
	case "tx":
		n := x.nodes[s.N]
		l := x.links[s.L]
		if n.last == nil || l.A != s.N {
			return
		}
		x.send(l, frame{n.last, n.sent})
	case "rx":
		l := x.links[s.L]
		k := min(s.K, len(l.q))
		if k == 0 {
			return
		}
		if k < len(l.q) {
			x.c.faults["fragmented delivery"]++
		}
		l.rx = append(l.rx, l.q[:k]...)
		l.q = append([]byte{}, l.q[k:]...)
		x.pump(l)
	case "reset":
		l := x.links[s.L]
		if len(l.q)+len(l.rx) > 0 {
			x.c.faults["connection reset with retransmission"]++
		}
		l.resend()
	case "dg": // one datagram: delivered, duplicated or lost, in any order
		l := x.links[s.L]
		if len(l.dq) == 0 {
			return
		}
		i := s.K % len(l.dq)
		f := l.dq[i]
		if i != 0 {
			x.c.faults["datagram reordered"]++
		}
		switch s.M {
		case 1:
			x.c.faults["datagram duplicated"]++
		case 2:
			x.c.faults["datagram lost"]++
			l.dq = append(append([]frame{}, l.dq[:i]...), l.dq[i+1:]...)
			return
		default:
			l.dq = append(append([]frame{}, l.dq[:i]...), l.dq[i+1:]...)
		}
		n := x.ensure(l.B)
		// the buffer may be larger than the datagram, and hold an older one behind it
		tail := dirt(s.Fill, s.Post)
		buf := append(append(dirt(7, l.Off), f.b...), tail...)
		r, th := x.probe(l.B, buf, l.Off, l.Api)
		x.c.checks++
		if th || r != int64(len(f.b)) {
			x.fail("framing", "%s: decode_size says %d (thrown=%v) for a complete datagram of %d bytes", x.who(n), r, th, len(f.b))
		}
		d, th := x.num(n, "D %d %d %d %d", l.B, bufOf(l.B, 1), l.Off, l.Api)
		if th || d != int64(len(f.b)) {
			x.fail("decode", "%s: decode returned %d (thrown=%v) for a datagram of %d bytes", x.who(n), d, th, len(f.b))
		}
		v := n.t.U.expected(n.t.S, f.v)
		x.dump(l.B, v, false, "received")
		x.got(l.B, v)
		x.c.frames++
	case "drain": // faults have stopped: everything still owed must arrive
		for _, l := range x.links { // a relay's onward link comes after the one it reads
			if l.Dgram {
				continue
			}
			if l.entered != len(l.expect) {
				l.resend()
			}
			l.rx = append(l.rx, l.q...)
			l.q = nil
			if len(l.rx) > 0 {
				x.pump(l)
			}
			x.c.checks++
			if len(l.expect) != 0 || len(l.rx) != 0 {
				x.fail("liveness", "%s: %d frames were never delivered although all bytes arrived", x.who(x.nodes[l.B]), len(l.expect))
			}
		}
	case "prefix":
		x.prefix(s)
	case "dec":
		x.dec(s)
	case "hold": // decode, then the receive buffer is reused
		x.hold(s)
	case "alias":
		x.alias(s)
	case "oom":
		x.oom(s)
	case "own":
		x.own(s)
	case "eq":
		x.eq(s)
	case "par":
		x.par(s)
	default:
		panic("unknown op " + s.Op)
	}
}

// prefix hands decode_size a part of a valid frame (K bytes), or all of it with a
// tail behind it.
func (x *runner) prefix(s *Step) {
	n := x.ensure(s.N)
	f := n.t.U.Encode(n.t.S, s.V).Bytes
	b := f
	if s.K < len(f) && s.Tail == "" {
		b = f[:max(s.K, 0)]
		x.c.faults["truncated delivery"]++
	} else if s.Tail != "" {
		t, _ := hex.DecodeString(s.Tail)
		b = append(append([]byte{}, f...), t...)
		x.c.faults["trailing bytes"]++
	}
	buf := append(dirt(s.Fill, s.Pre), b...)
	r, th := x.probe(s.N, buf, s.Pre, s.Api)
	x.c.checks++
	x.c.frames++
	switch {
	case th:
		x.fail("framing", "%s: decode_size threw with %d of %d bytes held", x.who(n), len(b), len(f))
	case len(b) >= len(f) && r != int64(len(f)):
		x.fail("framing", "%s: decode_size says %d for a complete frame of %d bytes (%d held)", x.who(n), r, len(f), len(b))
	case len(b) < len(f) && (r >= 0 || -r <= int64(len(b)) || -r > int64(len(f))):
		x.fail("framing", "%s: decode_size says %d with %d of %d bytes held: want a negative count of bytes above %d and at most %d", x.who(n), r, len(b), len(f), len(b), len(f))
	}
	if len(b) < len(f) && s.Lax && takesLength(n.t.V, s.Api) {
		// decoding too early must be refused (APIs that know where the data ends)
		d, th := x.num(n, "D %d %d %d %d", s.N, bufOf(s.N, 1), s.Pre, s.Api)
		x.c.checks++
		if th || d != -1 {
			x.fail("decode", "%s: decode of %d of %d bytes returned %d (thrown=%v), want -1", x.who(n), len(b), len(f), d, th)
		}
		n.cur = nil
	}
}

// takesLength tells whether the decoder knows the length of its input.
func takesLength(v *Variant, api int) bool {
	switch v.Lang {
	case "c":
		return false
	case "cpp":
		return !v.Compat && api == 0
	}
	return true
}

func (m Mut) apply(b []byte) []byte {
	out := append([]byte{}, b...)
	h, _ := hex.DecodeString(m.Hex)
	p := m.Pos
	if p > len(out) {
		p = len(out)
	}
	if p < 0 {
		p = 0
	}
	switch m.Op {
	case "xor":
		for i, c := range h {
			if p+i < len(out) {
				out[p+i] ^= c
			}
		}
	case "set":
		for i, c := range h {
			if p+i < len(out) {
				out[p+i] = c
			}
		}
	case "trunc":
		out = out[:p]
	case "append":
		out = append(out, h...)
	case "insert":
		out = append(append(append([]byte{}, out[:p]...), h...), out[p:]...)
	case "delete":
		e := min(p+m.N, len(out))
		out = append(append([]byte{}, out[:p]...), out[e:]...)
	}
	return out
}

// dec hands a (possibly damaged) frame to a receiver that follows the documented
// protocol: ask decode_size, decode only what it calls complete.
func (x *runner) dec(s *Step) {
	n := x.ensure(s.N)
	b := n.t.U.Encode(n.t.S, s.V).Bytes
	for _, m := range s.Mut {
		b = m.apply(b)
		x.c.faults["frame "+m.Op]++
	}
	want, used, st, weird := n.t.U.Decode(n.t.S, b)
	buf := append(dirt(s.Fill, s.Pre), b...)
	r, th := x.probe(s.N, buf, s.Pre, s.Api)
	x.c.checks++
	x.c.frames++
	lenWeird := false
	for _, w := range weird {
		if w == "hugelen" {
			lenWeird = true
		}
	}
	if len(s.Mut) == 0 || (st == dOK || st == dConst) && !lenWeird {
		if th || r != int64(used) {
			x.fail("framing", "%s: decode_size says %d (thrown=%v) for frame %x of %d bytes (%d held)", x.who(n), r, th, clip(b), used, len(b))
		}
	} else if st == dShort && !lenWeird {
		if !th && (r >= 0 || -r <= int64(len(b))) {
			x.fail("framing", "%s: decode_size says %d for an incomplete frame, %d bytes held: %x", x.who(n), r, len(b), clip(b))
		}
	}
	if th || r <= 0 {
		return
	}
	if r > int64(len(b)) {
		x.fail("framing", "%s: decode_size says the frame is complete with %d bytes, %d are held: %x", x.who(n), r, len(b), clip(b))
	}
	d, th := x.num(n, "D %d %d %d %d", s.N, bufOf(s.N, 1), s.Pre, s.Api)
	n.cur, n.view = nil, false
	x.c.checks++
	switch st {
	case dOK:
		if th || d != int64(used) {
			x.fail("decode", "%s: decode of a valid frame of %d bytes returned %d (thrown=%v): %x", x.who(n), used, d, th, clip(b))
		}
		x.dump(s.N, want, false, "decoded")
		x.got(s.N, want)
	case dConst:
		if len(weird) == 0 && !th && d >= 0 {
			x.fail("constant", "%s: a frame with a wrong constant was accepted (decode returned %d): %x", x.who(n), d, clip(b))
		}
		if len(weird) == 0 && (th || d != -1) {
			x.fail("constant", "%s: a frame with a wrong constant was answered with %d (thrown=%v), want -1: %x", x.who(n), d, th, clip(b))
		}
		x.c.faults["constant damaged"]++
	case dShort, dWeird:
		if st == dWeird && onlyEnums(weird) {
			x.oddEnums(s, want, used, r, d, th, b)
			return
		}
		// a frame with an odd length prefix or text in it may be refused, but what is
		// accepted must be the frame decode_size announced
		if !th && d > 0 && d != r {
			x.fail("decode", "%s: decode consumed %d bytes, decode_size announced %d (%d held): %x", x.who(n), d, r, len(b), clip(b))
		}
		if !th && d > 0 {
			x.do(n, "P %d", s.N) // reading what was accepted must be safe
		}
	}
}

func onlyEnums(weird []string) bool {
	for _, w := range weird {
		if w != "enum" && w != "nan" {
			return false
		}
	}
	return true
}

// oddEnums checks what became of a frame that is valid but for enum numbers the schema
// does not name: whoever takes it takes all of it, and has every other field right.
// Targets whose enums are numbers keep the number, Kotlin has no value there.
func (x *runner) oddEnums(s *Step, want *Val, used int, r, d int64, th bool, b []byte) {
	n := x.nodes[s.N]
	x.c.faults["unknown enum value"]++
	if r != int64(used) {
		x.fail("framing", "%s: decode_size says %d for a frame of %d bytes with an unknown enum value (%d held): %x", x.who(n), r, used, len(b), clip(b))
	}
	number, null := false, false
	switch n.t.V.Lang {
	case "c", "cpp", "go", "cs":
		number = true
	case "kt":
		null = true
	}
	if th || d < 0 {
		if number || null {
			x.fail("decode", "%s: a frame with an unknown enum value was answered with %d (thrown=%v): %x", x.who(n), d, th, clip(b))
		}
		return
	}
	if d != int64(used) {
		x.fail("decode", "%s: decode of a frame of %d bytes with an unknown enum value returned %d: %x", x.who(n), used, d, clip(b))
	}
	u := n.t.U
	got := strings.Fields(strings.TrimPrefix(x.do(n, "P %d", s.N), "ok"))
	w := u.tokens(n.t.S, want, nil)
	odd := u.tokens(n.t.S, u.markOdd(n.t.S, want), nil)
	x.c.checks++
	ok := len(got) == len(w)
	for k := 0; ok && k < len(w); k++ {
		ok = got[k] == w[k] && !(null && odd[k] != w[k]) || odd[k] != w[k] && !number && (!null || got[k] == "null")
		if lang := n.t.V.Lang; !ok && odd[k] != w[k] && (lang == "c" || lang == "cs") {
			// a C enum is as wide as the compiler finds its values need, a C# enum
			// of four bytes may be an int
			full, err := strconv.ParseUint(w[k], 10, 64)
			have, err2 := strconv.ParseUint(got[k], 10, 64)
			ok = err == nil && err2 == nil && uint32(full) == uint32(have) &&
				(have <= math.MaxUint32 && lang == "c" || full <= math.MaxUint32 && have>>31 == math.MaxUint64>>31)
		}
	}
	if !ok {
		x.fail("value", "%s: decoded a frame with an unknown enum value: fields are [%s], want [%s]: %x", x.who(n), trunc(strings.Join(got, " "), 400), trunc(strings.Join(w, " "), 400), clip(b))
	}
}

// hold decodes a frame and then overwrites the memory it came from; an object that
// copies keeps its value.
func (x *runner) hold(s *Step) {
	n := x.ensure(s.N)
	b := n.t.U.Encode(n.t.S, s.V).Bytes
	buf := append(dirt(s.Fill, s.Pre), b...)
	buf = append(buf, dirt(s.Fill+1, s.Post)...)
	x.rebuf(s.N, buf)
	d, th := x.num(n, "D %d %d %d %d", s.N, bufOf(s.N, 1), s.Pre, s.Api)
	if th || d != int64(len(b)) {
		x.fail("decode", "%s: decode returned %d (thrown=%v) for a frame of %d bytes", x.who(n), d, th, len(b))
	}
	want := n.t.U.expected(n.t.S, s.V)
	x.c.faults["receive buffer overwritten"]++
	for k := 0; k < max(1, s.K); k++ {
		x.do(n, "M %d 0 x%x", bufOf(s.N, 1), dirt(100+s.Fill+k, len(buf)))
	}
	if s.M == 1 { // and released
		x.do(n, "B %d -", bufOf(s.N, 1))
		x.c.faults["receive buffer released"]++
	}
	x.dump(s.N, want, false, "after its receive buffer was reused")
	n.cur = want
	x.c.frames++
	if s.Lax { // what was taken from the object stays, whatever the object decodes next
		x.do(n, "Y %d %d %d", s.N, 40+s.N, n.t.ID)
		v := n.t.U.reblob(n.t.S, s.V, byte(7+s.Fill), true, true)
		b2 := n.t.U.Encode(n.t.S, v).Bytes
		x.rebuf(s.N, b2)
		if d, th := x.num(n, "D %d %d 0 %d", s.N, bufOf(s.N, 1), s.Api); th || d != int64(len(b2)) {
			x.fail("decode", "%s: decode returned %d (thrown=%v) for a frame of %d bytes", x.who(n), d, th, len(b2))
		}
		want2 := n.t.U.expected(n.t.S, v)
		x.dump(s.N, want2, false, "decoded")
		n.cur = want2
		x.c.frames++
		got := strings.Fields(strings.TrimPrefix(x.do(n, "P %d", 40+s.N), "ok"))
		w := n.t.U.tokens(n.t.S, want, nil)
		x.c.checks++
		ok := len(got) == len(w)
		k := 0
		for i, f := range n.t.U.normals(n.t.S) {
			c := len(n.t.U.valTokens(f, want.L[i]))
			if ok && f.Len == 0 && (f.K == KString || f.K == KBytes) && got[k] != w[k] {
				ok = false
			}
			k += c
		}
		if !ok {
			x.fail("value", "%s: strings and byte strings taken from it before it decoded its next frame are now [%s], were [%s]", x.who(n), trunc(strings.Join(got, " "), 400), trunc(strings.Join(w, " "), 400))
		}
		x.c.faults["object reused while its old values are held"]++
	}
}

// alias decodes a frame and then changes, in the memory it came from, what its strings
// and byte strings hold; an object that does not copy shows the change, and in C has
// needed no memory for any of it.
func (x *runner) alias(s *Step) {
	n := x.ensure(s.N)
	f := n.t.U.Encode(n.t.S, s.V).Bytes
	buf := append(dirt(s.Fill, s.Pre), f...)
	buf = append(buf, dirt(s.Fill+1, s.Post)...)
	x.rebuf(s.N, buf)
	isC := n.t.V.Lang == "c"
	if isC {
		x.do(n, "K %d 0", 1+s.Fill%2)
		x.c.faults["no memory to be had"]++
	}
	d, th := x.num(n, "D %d %d %d %d", s.N, bufOf(s.N, 1), s.Pre, s.Api)
	x.c.checks++
	x.c.frames++
	if isC {
		if a, _ := x.num(n, "k 1"); a > 0 {
			x.fail("copied", "%s: decoding without copying asked for memory %d times: %x", x.who(n), a, clip(f))
		}
	}
	if th || d != int64(len(f)) {
		x.fail("decode", "%s: decode returned %d (thrown=%v) for a frame of %d bytes", x.who(n), d, th, len(f))
	}
	want := n.t.U.expected(n.t.S, s.V)
	x.dump(s.N, want, false, "decoded")
	for k := 0; k < max(1, s.K); k++ {
		v := n.t.U.reblob(n.t.S, want, byte(s.Fill+k), true, true)
		want = n.t.U.reblob(n.t.S, want, byte(s.Fill+k), isC, true)
		x.do(n, "M %d %d x%x", bufOf(s.N, 1), s.Pre, n.t.U.Encode(n.t.S, v).Bytes)
		x.c.faults["receive buffer changed in place"]++
		x.dump(s.N, want, false, "after its receive buffer was changed in place")
	}
	x.got(s.N, want)
}

// oom decodes while the K-th allocation fails (C with copying).
func (x *runner) oom(s *Step) {
	n := x.ensure(s.N)
	if n.t.V.Lang != "c" {
		return
	}
	b := n.t.U.Encode(n.t.S, s.V).Bytes
	x.rebuf(s.N, b)
	x.do(n, "K %d %d", s.K, s.M)
	d, _ := x.num(n, "D %d %d 0 0", s.N, bufOf(s.N, 1))
	failed, _ := x.num(n, "k 0")
	x.c.checks++
	x.c.frames++
	if failed > 0 {
		x.c.faults[[]string{"allocation failed", "allocations failed from one on"}[s.M]]++
		if d < 0 {
			n.cur = nil
			return
		}
		// an empty byte string needs no memory; otherwise the value is incomplete or
		// does without the memory, which the comparison below shows
		x.do(n, "M %d 0 x%x", bufOf(s.N, 1), dirt(100+s.Fill, len(b)))
	}
	if d != int64(len(b)) {
		x.fail("decode", "%s: decode returned %d for a frame of %d bytes", x.who(n), d, len(b))
	}
	x.dump(s.N, n.t.U.expected(n.t.S, s.V), false, "decoded")
	x.got(s.N, n.t.U.expected(n.t.S, s.V))
}

// own decodes into an object of its own and asks who owns what has been allocated: in
// C the blocks the object's strings and byte strings point to, each its own, are all
// there is; in C++ nothing is left when the object is gone. It also decodes frames with
// a constant damaged and while the K-th allocation fails.
func (x *runner) own(s *Step) {
	n := x.ensure(s.N)
	u := n.t.U
	f := u.Encode(n.t.S, s.V).Bytes
	bad := f
	for _, m := range s.Mut {
		bad = m.apply(bad)
	}
	useBad := false
	if len(s.Mut) > 0 {
		if _, _, st, weird := u.Decode(n.t.S, bad); st == dConst && len(weird) == 0 {
			useBad = true
			x.c.faults["constant damaged"]++
		}
	}
	if n.t.V.Lang == "c" {
		b := f
		if useBad {
			b = bad
		}
		x.rebuf(s.N, append(dirt(s.Fill, s.Pre), b...))
		var ok, d, got, foreign, left, freed, enc, failed int64
		r := x.do(n, "O %d %d %d %d %d", n.t.ID, bufOf(s.N, 1), s.Pre, s.K, s.M)
		fmt.Sscanf(r, "ok %d %d %d %d %d %d %d %d", &ok, &d, &got, &foreign, &left, &freed, &enc, &failed)
		if ok == 0 {
			return
		}
		x.c.checks++
		x.c.frames++
		how := fmt.Sprintf("decode returned %d, %d allocations failed, %d blocks are allocated", d, failed, got)
		if failed > 0 {
			x.c.faults["allocation failed"]++
		}
		switch {
		case foreign > 0:
			x.fail("owner", "%s: %d strings or byte strings of the object are not blocks of their own, to be freed once each (%s): frame %x", x.who(n), foreign, how, clip(b))
		case left > 0:
			x.fail("leak", "%s: %d blocks belong to nobody (%s): frame %x", x.who(n), left, how, clip(b))
		case freed > 0:
			x.fail("owner", "%s: decoding released %d blocks that are not its own (%s): frame %x", x.who(n), freed, how, clip(b))
		case enc != 0:
			x.fail("leak", "%s: encoding or probing sizes left or released %d blocks (%s): frame %x", x.who(n), enc, how, clip(b))
		case failed == 0 && !useBad && d != int64(len(b)):
			x.fail("decode", "%s: decode returned %d for a frame of %d bytes", x.who(n), d, len(b))
		}
		return
	}
	// C++: the frames in turn, the last one whole
	type fr struct {
		b    []byte
		fail int
	}
	frs := []fr{}
	if useBad {
		frs = append(frs, fr{bad, 0})
	}
	if s.K > 0 {
		frs = append(frs, fr{f, s.K})
	}
	f2 := u.Encode(n.t.S, u.reblob(n.t.S, s.V, byte(3+s.Fill), true, true)).Bytes
	if s.Lax {
		frs = append(frs, fr{f2, 0})
		if useBad {
			frs = append(frs, fr{bad, 0})
		}
	}
	frs = append(frs, fr{f, 0})
	var all []byte
	arg := ""
	for _, q := range frs {
		arg += fmt.Sprintf(" %d %d %d", bufOf(s.N, 1), len(all), q.fail)
		all = append(all, q.b...)
	}
	x.rebuf(s.N, all)
	w := strings.Fields(x.do(n, "O %d %d%s", n.t.ID, s.Api, arg))
	if len(w) != 3+2*len(frs) || w[0] != "ok" {
		if len(w) > 1 && w[1] == "0" {
			return
		}
		x.fail("decode", "%s: decoding %d frames answered %q", x.who(n), len(frs), strings.Join(w, " "))
	}
	left, _ := atoi(w[2])
	x.c.checks++
	x.c.frames += int64(len(frs))
	for i, q := range frs {
		d, _ := atoi(w[3+2*i])
		failed, _ := atoi(w[4+2*i])
		if failed > 0 {
			x.c.faults["allocation failed"]++
		}
		if failed == 0 && bytes.Equal(q.b, f) && d != int64(len(f)) {
			x.fail("decode", "%s: decode returned %d for a frame of %d bytes", x.who(n), d, len(f))
		}
	}
	if left != 0 {
		x.fail("leak", "%s: %d blocks are left when the object that decoded %d frames is gone (answers: %s): frame %x", x.who(n), left, len(frs), strings.Join(w[3:], " "), clip(f))
	}
}

// eq compares two nodes of the same type in the same process.
func (x *runner) eq(s *Step) {
	a, b := x.nodes[s.N], x.nodes[s.M]
	if a.t != b.t || !a.up || !b.up || a.cur == nil || b.cur == nil {
		return
	}
	if a.t.V.Lang != "java" && a.t.V.Lang != "cs" && a.t.V.Lang != "kt" {
		return
	}
	ta, tb := a.t.U.tokenString(a.t.S, a.cur), b.t.U.tokenString(b.t.S, b.cur)
	if strings.Contains(ta, "nan") || strings.Contains(tb, "nan") {
		return
	}
	// whether 0 and -0 are the same is the language's business, but equals and the
	// hash have to agree about it
	zeros := ta != tb && a.t.U.tokenString(a.t.S, a.t.U.posZero(a.t.S, a.cur)) == b.t.U.tokenString(b.t.S, b.t.U.posZero(b.t.S, b.cur))
	r := x.do(a, "Q %d %d", s.N, s.M)
	x.c.checks++
	switch {
	case ta == tb && r != "ok 111":
		x.fail("equality", "%s: two objects with the same fields: equals/equals reversed/hash equal = %s", x.who(a), r)
	case zeros && r != "ok 111" && !strings.HasPrefix(r, "ok 00"):
		x.fail("equality", "%s: two objects whose fields differ in the sign of zeros: equals/equals reversed/hash equal = %s", x.who(a), r)
	case ta != tb && !zeros && !strings.HasPrefix(r, "ok 00"):
		x.fail("equality", "%s: two objects with different fields: equals/equals reversed/hash equal = %s", x.who(a), r)
	}
}

// cget asks a node for everything its custom getters have to say.
func (x *runner) cget(s *Step) {
	n := x.nodes[s.N]
	if !n.up || n.cur == nil {
		return
	}
	as := n.t.U.accs(n.t.S)
	var idx, want []string
	for k, a := range as {
		if a.A.Get == nil {
			continue
		}
		op, ok := ofVal(a.F.K, n.cur.L[a.I])
		if !ok {
			continue
		}
		e, ok := a.A.Get.eval(op)
		if !ok {
			continue
		}
		v, ok := toVal(nil, a.A.T, e)
		if !ok {
			continue
		}
		idx = append(idx, fmt.Sprint(k))
		want = append(want, scalarToken(a.A.T, v))
	}
	if len(idx) == 0 {
		return
	}
	r := x.do(n, "U %d %s", s.N, strings.Join(idx, " "))
	got := strings.Fields(strings.TrimPrefix(r, "ok"))
	x.c.checks += int64(len(idx))
	if !strings.HasPrefix(r, "ok") || len(got) != len(want) {
		x.fail("accessor", "%s: custom getters answered %q", x.who(n), trunc(r, 200))
	}
	for i := range got {
		if got[i] != want[i] && !zeroTokens(got[i], want[i]) {
			k, _ := atoi(idx[i])
			a := as[k]
			x.fail("accessor", "%s: get %s(%s): %s is %s where %s is %s, want %s", x.who(n), a.A.Name, kindName[a.A.T], a.A.Get.text(NewRNG(1)), got[i], a.F.Name, scalarToken(a.F.K, n.cur.L[a.I]), want[i])
		}
	}
}

// zeroTokens: both are a zero, of either sign.
func zeroTokens(a, b string) bool {
	z := func(s string) bool { return s == "0" || s == "80000000" || s == "8000000000000000" }
	return z(a) && z(b)
}

// consts reads the constants a node exposes.
func (x *runner) consts(s *Step) {
	n := x.ensure(s.N)
	switch n.t.V.Lang {
	case "cs", "esm", "cjs", "kt":
	default:
		return
	}
	r := x.do(n, "W %d", s.N)
	var want []string
	for _, f := range n.t.U.consts(n.t.S) {
		want = append(want, scalarToken(f.K, &Val{I: f.CBits}))
	}
	x.c.checks++
	if got := strings.TrimSpace(strings.TrimPrefix(r, "ok")); got != strings.Join(want, " ") {
		x.fail("constant", "%s: the constants exposed are [%s], want [%s]", x.who(n), trunc(got, 300), trunc(strings.Join(want, " "), 300))
	}
}

// cset calls custom setter K with value V; the field must take the value the schema
// gives and nothing else may change.
func (x *runner) cset(s *Step) {
	n := x.nodes[s.N]
	as := n.t.U.accs(n.t.S)
	if !n.up || n.cur == nil || s.K >= len(as) || as[s.K].A.Set == nil {
		return
	}
	a := as[s.K]
	op, ok := ofVal(a.A.T, s.V)
	if !ok {
		return
	}
	e, ok := a.A.Set.eval(op)
	if !ok {
		return
	}
	v, ok := toVal(a.F, a.F.K, e)
	if !ok {
		return
	}
	if r := x.do(n, "V %d %d %s", s.N, s.K, scalarToken(a.A.T, s.V)); r != "ok" {
		x.fail("accessor", "%s: custom setter %s failed: %s", x.who(n), a.A.Name, r)
	}
	c := *n.cur
	c.L = append([]*Val{}, c.L...)
	c.L[a.I] = v
	n.cur = &c
	r := x.do(n, "P %d", s.N)
	got := strings.TrimSpace(strings.TrimPrefix(r, "ok"))
	w := n.t.U.tokenString(n.t.S, n.cur)
	x.c.checks++
	if got != w && !sameButZeros(got, w) {
		x.fail("accessor", "%s: after set %s(%s) to %s, %s: fields are [%s], want [%s]", x.who(n), a.A.Name, kindName[a.A.T], scalarToken(a.A.T, s.V), a.A.Set.text(NewRNG(1)), trunc(got, 400), trunc(w, 400))
	}
	if got != w { // a zero of the other sign: ask for it plainly
		x.set(s.N, n.cur, false)
	}
}

func sameButZeros(a, b string) bool {
	x, y := strings.Fields(a), strings.Fields(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] && !zeroTokens(x[i], y[i]) {
			return false
		}
	}
	return true
}

func pickInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (x *runner) blocked(v *Violation) bool {
	if x.whole || v.Step >= len(x.ep.Steps) || x.ep.Steps[v.Step].Op != "par" || len(x.ep.Steps[v.Step].Seq) == 0 {
		return false
	}
	if v.Kind != "hang" && !strings.Contains(v.Msg, "deadlock!") {
		return false
	}
	x.p.waits.Add(1)
	return true
}

const parBuf = 40 // buffers of overlapping calls

// par runs calls that overlap: each does what it does alone.
func (x *runner) par(s *Step) {
	type pend struct {
		c    *Call
		n    *node
		ref  *Frame
		img  []byte
		want *Val
		buf  int
	}
	var ps []*pend
	read, written := map[int]bool{}, map[int]bool{}
	at := map[int]*pend{} // by index of the call
	for i := range s.Par {
		c := &s.Par[i]
		n := x.ensure(c.N)
		if len(ps) > 0 && workerKey(n.t.V) != workerKey(ps[0].n.t.V) {
			continue
		}
		q := &pend{c: c, n: n, buf: parBuf + i}
		switch c.Op {
		case "E", "S":
			if n.cur == nil || written[c.N] {
				continue
			}
			read[c.N] = true
			q.ref = n.t.U.Encode(n.t.S, n.cur)
			q.img = dirt(c.Fill, c.Pre+len(q.ref.Bytes)+c.Post)
		case "D", "Z":
			if c.Op == "D" && (read[c.N] || written[c.N]) {
				continue
			}
			if o := at[c.Share-1]; c.Share > 0 && o != nil && (o.c.Op == "D" || o.c.Op == "Z") && o.n.t == n.t && o.c.Share == 0 {
				q.ref, q.img, q.buf, q.want = o.ref, o.img, o.buf, o.want
				c.Pre = o.c.Pre
			} else if c.V == nil {
				continue
			} else {
				q.ref = n.t.U.Encode(n.t.S, c.V)
				q.want = n.t.U.expected(n.t.S, c.V)
				q.img = append(append(dirt(c.Fill, c.Pre), q.ref.Bytes...), dirt(c.Fill+1, c.Post)...)
			}
			if c.Op == "D" {
				written[c.N] = true
			}
		}
		at[i] = q
		ps = append(ps, q)
	}
	if len(ps) == 0 {
		return
	}
	for _, q := range ps {
		if q.c.Op != "S" && q.buf == parBuf+indexOf(s.Par, q.c) {
			x.do(q.n, "B %d x%x", q.buf, q.img)
		}
	}
	var cmd strings.Builder
	sched := s.Seq
	if x.whole || x.p.waits.Load() > 3 {
		sched = nil
	}
	fmt.Fprintf(&cmd, "T %d", len(sched)/2)
	for _, v := range sched[:len(sched)&^1] {
		fmt.Fprintf(&cmd, " %d", v)
	}
	fmt.Fprintf(&cmd, " %d", len(ps))
	for _, q := range ps {
		a, b := q.c.N, q.buf
		if q.c.Op == "Z" {
			a = q.n.t.ID
		}
		if q.c.Op == "S" {
			b = 0
		}
		fmt.Fprintf(&cmd, " %s %d %d %d %d", q.c.Op, a, b, q.c.Pre, q.c.Api)
	}
	r := x.do(ps[0].n, "%s", cmd.String())
	f := strings.Fields(r)
	if len(f) != len(ps)+4 || f[0] != "ok" {
		x.fail("bad-reply", "%s: %q", x.who(ps[0].n), trunc(r, 300))
	}
	sw, _ := atoi(f[len(f)-2])
	x.c.faults["switch to another call in the middle of one"] += sw
	if sw > 0 {
		x.states[seedOf("par", ps[0].n.t.ID, sw, jsonStr(s.Seq))] = true
	}
	for i, q := range ps {
		x.c.checks++
		size := len(q.ref.Bytes)
		what := fmt.Sprintf("%s: call %d (%s) of %d running at once", x.who(q.n), i, q.c.Op, len(ps))
		if f[i+1] != fmt.Sprint(size) {
			x.fail("overlap", "%s returned %s, alone it returns %d", what, f[i+1], size)
		}
		switch q.c.Op {
		case "E":
			r := x.do(q.n, "R %d", q.buf)
			got, err := hex.DecodeString(strings.TrimPrefix(r, "ok x"))
			if err != nil || len(got) != len(q.img) {
				x.fail("bad-reply", "%s: %q", x.who(q.n), trunc(r, 300))
			}
			if !sameFrame(got[q.c.Pre:q.c.Pre+size], q.ref) {
				x.fail("overlap", "%s encoded %x, the documented frame is %x (padding %x)", what, clip(got[q.c.Pre:q.c.Pre+size]), clip(q.ref.Bytes), clip(q.ref.Void))
			}
			for k := range got {
				if (k < q.c.Pre || k >= q.c.Pre+size) && got[k] != q.img[k] {
					x.fail("overlap", "%s changed byte %d outside of its window", what, k)
				}
			}
			x.c.frames++
		case "D":
			x.dump(q.c.N, q.want, false, what+": decoded")
			q.n.cur, q.n.view = q.want, false
			if !q.n.t.V.Copies() {
				q.n.cur = nil // its bytes are in a buffer about to be used again
			}
			x.c.frames++
		}
	}
}

func indexOf(l []Call, c *Call) int {
	for i := range l {
		if &l[i] == c {
			return i
		}
	}
	return -1
}
