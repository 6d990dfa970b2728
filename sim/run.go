package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- property definitions and the search over episodes ------------------------

// codecProp is a property decided by simulating generated codecs as nodes.
type codecProp struct {
	ID    string
	Title string
	Unis  int // universes in a quick check
	Eps   int // episodes in a quick check
	// how many variants of each language a universe is generated for
	Per     int
	Langs   []string
	Cfg     func(r *RNG) GenCfg
	Allow   func(v *Variant) bool
	NeedAll bool // every variant must be used by some universe
	Gen     func(g *gen) *Episode
	Rule    string
	Faults  []string
	Threads bool
}

func jsonStr(v any) string { b, _ := json.Marshal(v); return string(b) }

// plan fixes universes, variants and who is generated for whom, from the seed.
func (cp *codecProp) plan(seed uint64, round int, dir string) *Pool {
	p := &Pool{Dir: dir, Use: map[int]bool{}, Threads: cp.Threads}
	r := NewRNG(seedOf("plan", cp.ID, seed, round))
	ok := map[string]bool{}
	only := os.Getenv("SIM_LANGS") // for trying things out
	for _, l := range cp.Langs {
		ok[l] = only == "" || strings.Contains(","+only+",", ","+l+",")
	}
	vs := baseVariants()
	if round > 0 {
		vs = append(vs, randomVariants(r.Fork("variants"), 3)...)
	}
	byLang := map[string][]int{}
	for _, v := range vs {
		if ok[v.Lang] && (cp.Allow == nil || cp.Allow(v)) {
			byLang[v.Lang] = append(byLang[v.Lang], len(p.Variants))
			p.Variants = append(p.Variants, v)
		}
	}
	for i := 0; i < cp.Unis; i++ {
		ur := NewRNG(seedOf("universe", cp.ID, seed, round, i))
		cfg := cp.Cfg(ur.Fork("cfg"))
		p.Unis = append(p.Unis, genUniverse(i, ur, cfg))
		for _, l := range cp.Langs {
			vs := byLang[l]
			for k := 0; k < cp.Per && k < len(vs); k++ {
				p.Use[tidOf(vs[(i*cp.Per+k)%len(vs)], i, 0)] = true
			}
		}
	}
	p.index()
	return p
}

// gen is what an episode generator works with.
type gen struct {
	*RNG
	p     *Pool
	ep    *Episode
	now   int64
	index int
	// per universe and struct: the types, in a fixed order
	types []*typ
	small bool
}

func (g *gen) sorted() []*typ {
	if g.types == nil {
		for _, t := range g.p.Types {
			g.types = append(g.types, t)
		}
		sort.Slice(g.types, func(i, j int) bool { return g.types[i].ID < g.types[j].ID })
	}
	return g.types
}

// pick draws one type satisfying f (nil if there is none).
func (g *gen) pick(f func(t *typ) bool) *typ {
	var c []*typ
	for _, t := range g.sorted() {
		if f == nil || f(t) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	// first the language, then the type: every target gets its share
	by := map[string][]*typ{}
	var ls []string
	for _, t := range c {
		if by[t.V.Lang] == nil {
			ls = append(ls, t.V.Lang)
		}
		by[t.V.Lang] = append(by[t.V.Lang], t)
	}
	l := by[ls[(g.index+g.N(2)*3)%len(ls)]]
	return l[g.N(len(l))]
}

// siblings are the types generated from the same struct.
func (g *gen) siblings(t *typ) []*typ {
	var c []*typ
	for _, o := range g.sorted() {
		if o.UI == t.UI && o.SI == t.SI {
			c = append(c, o)
		}
	}
	return c
}

func (g *gen) node(t *typ) int {
	g.ep.Nodes = append(g.ep.Nodes, NodeSpec{t.VI, t.UI, t.SI})
	return len(g.ep.Nodes) - 1
}

func (g *gen) typeOf(n int) *typ {
	s := g.ep.Nodes[n]
	return g.p.Types[tidOf(s.V, s.U, s.S)]
}

func (g *gen) val(t *typ) *Val {
	c := valCfg{maxBlob: 40, long: g.P(25)}
	if g.P(2) && !g.small { // lengths that take three bytes, and now and then four
		n := []int{16383, 16384, 16385, 16511, 16512, 20000, 32768, 65535, 65536, 70000}[g.N(10)]
		if g.P(50) { // beyond buffers people think large enough
			n = []int{511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 9999}[g.N(11)]
		}
		if g.P(5) {
			n = []int{1<<21 - 1, 1 << 21, 1<<21 + 129}[g.N(3)]
		}
		c.huge = &n
	}
	return t.U.genVal(t.S, g.RNG, c)
}

// tick advances simulated time by up to max microseconds.
func (g *gen) tick(max int) int64 { g.now += int64(g.N(max) + 1); return g.now }

func (g *gen) add(s Step) {
	if s.T == 0 {
		s.T = g.tick(5000)
	}
	g.ep.Steps = append(g.ep.Steps, s)
}

func (cp *codecProp) episode(p *Pool, types []*typ, seed uint64, round, i int) *Episode {
	g := &gen{RNG: NewRNG(seedOf("episode", cp.ID, seed, round, i)), p: p, index: i, types: types}
	g.ep = &Episode{Prop: cp.ID, Index: i}
	return cp.Gen(g)
}

// outcome of a search over one pool
type outcome struct {
	ep      *Episode
	prelude []*Episode
	viol    *Violation
	buildEr *genError
	pairs   []int // of a build failure
}

type stats struct {
	runs, nontrivial int64
	c                *counters
	sched            map[uint64]bool
	states           map[uint64]bool
	samples          []string
	pairs            int
	builds           int
	notes            map[string]int64
	genSecs          float64
	runSecs          float64
}

func newStats() *stats {
	return &stats{c: newCounters(), sched: map[uint64]bool{}, states: map[uint64]bool{}, notes: map[string]int64{}}
}

const nShards = 8

func scheduleHash(ep *Episode) uint64 {
	h := seedOf("s")
	for _, n := range ep.Nodes {
		h = seedOf(h, n.V, n.U, n.S)
	}
	for _, s := range ep.Steps {
		h = seedOf(h, s.Op, s.N, s.M, s.L, s.K, s.Api, s.Pre, s.Post, s.Fill, len(s.Mut), len(s.Tail))
		for _, c := range s.Par {
			h = seedOf(h, c.Op, c.N, c.Share, c.Pre, c.Api)
		}
		for _, n := range s.Seq {
			h = seedOf(h, n)
		}
		for _, m := range s.Mut {
			h = seedOf(h, m.Op, m.Pos, m.N, len(m.Hex))
		}
	}
	return h
}

func (cp *codecProp) search(p *Pool, seed uint64, round, n int, st *stats, deadline time.Time) (*outcome, error) {
	var best atomic.Int64
	best.Store(int64(n))
	type res struct {
		idx  int
		out  *outcome
		err  error
		st   *stats
		done []int
	}
	g0 := &gen{p: p}
	types := g0.sorted()
	results := make([]res, nShards)
	var wg sync.WaitGroup
	t0 := time.Now()
	for k := 0; k < nShards; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			sh := newShard(p)
			defer sh.close()
			rs := newStats()
			r := res{idx: -1, st: rs}
			for i := k; i < n; i += nShards {
				if int64(i) > best.Load() || !deadline.IsZero() && time.Now().After(deadline) {
					break
				}
				ep := cp.episode(p, types, seed, round, i)
				if ep == nil {
					continue
				}
				if i < 3 {
					rs.samples = append(rs.samples, sampleOf(p, ep))
				}
				before := total(rs.c.faults)
				x := &runner{p: p, sh: sh, ep: ep, c: rs.c, states: rs.states}
				v, err := x.run()
				rs.runs++
				if total(rs.c.faults) > before {
					rs.nontrivial++
					rs.sched[scheduleHash(ep)] = true
				}
				if err != nil {
					r.err = err
					break
				}
				if v != nil {
					r.idx, r.out = i, &outcome{ep: ep, viol: v}
					for _, d := range r.done {
						r.out.prelude = append(r.out.prelude, cp.episode(p, types, seed, round, d))
					}
					for {
						b := best.Load()
						if int64(i) >= b || best.CompareAndSwap(b, int64(i)) {
							break
						}
					}
					break
				}
				r.done = append(r.done, i)
			}
			results[k] = r
		}(k)
	}
	wg.Wait()
	st.runSecs += time.Since(t0).Seconds()
	var out *outcome
	idx := n
	var err error
	for _, r := range results {
		st.runs += r.st.runs
		st.nontrivial += r.st.nontrivial
		st.c.add(r.st.c)
		for h := range r.st.sched {
			st.sched[h] = true
		}
		for h := range r.st.states {
			st.states[h] = true
		}
		if len(st.samples) < 4 {
			st.samples = append(st.samples, r.st.samples...)
		}
		if r.err != nil {
			err = r.err
		}
		if r.out != nil && r.idx < idx {
			idx, out = r.idx, r.out
		}
	}
	if out != nil {
		return out, nil
	}
	return nil, err
}

func total(m map[string]int64) int64 {
	var n int64
	for _, v := range m {
		n += v
	}
	return n
}

func sampleOf(p *Pool, ep *Episode) string {
	var b strings.Builder
	fmt.Fprintf(&b, "run %d, nodes:", ep.Index)
	for i, n := range ep.Nodes {
		t := p.Types[tidOf(n.V, n.U, n.S)]
		fmt.Fprintf(&b, " %d=%s(%s).%s", i, t.V.Lang, strings.Join(t.V.Opts, " "), t.S.Name)
	}
	b.WriteString("; schedule:")
	for i, s := range ep.Steps {
		if i == 12 {
			fmt.Fprintf(&b, " ... (%d steps)", len(ep.Steps))
			break
		}
		s.V = nil
		b.WriteString(" " + jsonStr(s))
	}
	return trunc(b.String(), 1500)
}

// once runs an episode (after its prelude) on fresh processes.
func once(p *Pool, prelude []*Episode, ep *Episode, trace bool) (*Violation, error) {
	sh := newShard(p)
	defer sh.close()
	for _, e := range prelude {
		x := &runner{p: p, sh: sh, ep: e, c: newCounters(), states: map[uint64]bool{}}
		if _, err := x.run(); err != nil {
			return nil, err
		}
	}
	x := &runner{p: p, sh: sh, ep: ep, c: newCounters(), states: map[uint64]bool{}, trace: trace}
	return x.run()
}

// minimise deletes steps while the same kind of violation remains (ddmin), then
// shrinks values.
func minimise(p *Pool, o *outcome, budget time.Duration) {
	end := time.Now().Add(budget)
	sh := newShard(p)
	defer func() { sh.close() }()
	try := func(ep *Episode) *Violation {
		if time.Now().After(end) {
			return nil
		}
		if len(o.prelude) > 0 {
			v, err := once(p, o.prelude, ep, false)
			if err != nil || v == nil || v.Kind != o.viol.Kind {
				return nil
			}
			return v
		}
		x := &runner{p: p, sh: sh, ep: ep, c: newCounters(), states: map[uint64]bool{}}
		v, err := x.run()
		if err != nil || v == nil || v.Kind != o.viol.Kind {
			return nil
		}
		return v
	}
	cut := func(ep *Episode, v *Violation) {
		o.ep, o.viol = ep, v
		if v.Step+1 < len(ep.Steps) && ep.Steps[v.Step].Op != "drain" {
			c := *ep
			c.Steps = append([]Step{}, ep.Steps[:v.Step+1]...)
			o.ep = &c
		}
	}
	cut(o.ep, o.viol)
	n := 2
	for len(o.ep.Steps) > 1 && time.Now().Before(end) {
		size := (len(o.ep.Steps) + n - 1) / n
		found := false
		for a := 0; a < len(o.ep.Steps); a += size {
			b := min(a+size, len(o.ep.Steps))
			c := *o.ep
			c.Steps = append(append([]Step{}, o.ep.Steps[:a]...), o.ep.Steps[b:]...)
			if v := try(&c); v != nil {
				cut(&c, v)
				found = true
				n = max(n-1, 2)
				break
			}
		}
		if !found {
			if size == 1 {
				break
			}
			n = min(n*2, len(o.ep.Steps))
		}
	}
	// overlapping calls: fewer of them, fewer switches
	for i := 0; i < len(o.ep.Steps); i++ {
		for k := 0; i < len(o.ep.Steps) && k < len(o.ep.Steps[i].Par); {
			c := cloneEp(o.ep)
			s := &c.Steps[i]
			s.Par = append(s.Par[:k], s.Par[k+1:]...)
			for j := range s.Par {
				if s.Par[j].Share > k+1 {
					s.Par[j].Share--
				}
			}
			if v := try(c); v != nil {
				cut(c, v)
				continue
			}
			k++
		}
		for size := 16; i < len(o.ep.Steps) && size > 0; size /= 2 {
			for k := 0; i < len(o.ep.Steps) && k+2*size <= len(o.ep.Steps[i].Seq); {
				c := cloneEp(o.ep)
				s := &c.Steps[i]
				s.Seq = append(s.Seq[:k], s.Seq[k+2*size:]...)
				if v := try(c); v != nil {
					cut(c, v)
					continue
				}
				k += 2 * size
			}
		}
	}
	// values: zero what can be zeroed
	for i := range o.ep.Steps {
		if o.ep.Steps[i].V == nil {
			continue
		}
		var walk func(get func(ep *Episode) *Val)
		walk = func(get func(ep *Episode) *Val) {
			cur := get(o.ep)
			if cur.I != 0 || len(cur.B) > 0 {
				c := cloneEp(o.ep)
				t := get(c)
				t.I, t.B = 0, nil
				if v := try(c); v != nil {
					o.ep, o.viol = c, v
				}
			}
			for k := range cur.L {
				walk(func(ep *Episode) *Val { return get(ep).L[k] })
			}
		}
		if i < len(o.ep.Steps) {
			walk(func(ep *Episode) *Val { return ep.Steps[i].V })
		}
	}
}

func cloneEp(ep *Episode) *Episode {
	var c Episode
	json.Unmarshal([]byte(jsonStr(ep)), &c)
	return &c
}

// ---- replay files -------------------------------------------------------------

type Replay struct {
	Property  string      `json:"property"`
	Seed      uint64      `json:"seed"`
	Round     int         `json:"round"`
	Kind      string      `json:"kind"`
	Message   string      `json:"message"`
	Variants  []*Variant  `json:"variants"`
	Universes []*Universe `json:"universes"`
	Pairs     []int       `json:"pairs"`
	Sources   []string    `json:"sources,omitempty"`
	Prelude   []*Episode  `json:"prelude,omitempty"`
	Episode   *Episode    `json:"episode,omitempty"`
	Build     bool        `json:"build,omitempty"`
	Threads   bool        `json:"threads,omitempty"`
	Tool      *ToolReplay `json:"tool,omitempty"`
}

func (p *Pool) replayOf(prop string, seed uint64, round int, o *outcome) *Replay {
	r := &Replay{Threads: p.Threads, Property: prop, Seed: seed, Round: round, Variants: p.Variants, Universes: p.Unis, Prelude: o.prelude, Episode: o.ep}
	pairs := map[int]bool{}
	if o.buildEr != nil {
		r.Kind, r.Message, r.Build = "build", o.buildEr.Error(), true
		for _, q := range o.pairs {
			pairs[q] = true
		}
	} else {
		r.Kind, r.Message = o.viol.Kind, o.viol.Error()
		for _, ep := range append(append([]*Episode{}, o.prelude...), o.ep) {
			for _, n := range ep.Nodes {
				pairs[tidOf(n.V, n.U, 0)] = true
			}
		}
	}
	for q := range pairs {
		r.Pairs = append(r.Pairs, q)
	}
	sort.Ints(r.Pairs)
	// universes nobody uses are left out, keeping their numbers
	us := make([]*Universe, len(p.Unis))
	for ui := range us {
		us[ui] = &Universe{ID: p.Unis[ui].ID}
	}
	for _, q := range r.Pairs {
		ui := q / 100 % 100
		us[ui] = p.Unis[ui]
	}
	r.Universes = us
	for ui, u := range us {
		if len(u.Structs) > 0 && len(r.Sources) < 4 {
			for i, x := range u.Files {
				r.Sources = append(r.Sources, fmt.Sprintf("u%d: %s.bb:\n%s", ui, x.Path, u.Render("v", i)))
			}
		}
	}
	return r
}

func writeReplay(r *Replay) (string, error) {
	dir := filepath.Join(verifDir, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-r%d.json", r.Property, r.Seed, r.Round))
	b, _ := json.MarshalIndent(r, "", " ")
	return path, os.WriteFile(path, b, 0o644)
}

func (r *Replay) pool(dir string) (*Pool, error) {
	p := &Pool{Threads: r.Threads, Dir: dir, Variants: r.Variants, Unis: r.Universes, Use: map[int]bool{}}
	for _, u := range p.Unis {
		u.index()
	}
	for _, q := range r.Pairs {
		p.Use[q] = true
	}
	p.index()
	var err error
	p.Bubbler, err = buildBubbler(dir)
	return p, err
}

// blame finds one target and schema that fails to build, alone.
func (p *Pool) blame(first *genError) ([]int, *genError) {
	end := time.Now().Add(3 * time.Minute)
	var all []int
	for q := range p.Use {
		all = append(all, q)
	}
	sort.Ints(all)
	// the failing file usually names the pair's package: try those first
	sort.SliceStable(all, func(i, j int) bool { return p.named(all[i], first) && !p.named(all[j], first) })
	for _, q := range all {
		if time.Now().After(end) {
			break
		}
		dir, err := os.MkdirTemp("", "simpool")
		if err != nil {
			break
		}
		c := &Pool{Threads: p.Threads, Dir: dir, Variants: p.Variants, Unis: p.Unis, Use: map[int]bool{q: true}, Bubbler: p.Bubbler}
		c.index()
		err = c.Build()
		os.RemoveAll(dir)
		if e, ok := err.(*genError); ok {
			return []int{q}, e
		}
		if !p.named(q, first) {
			break
		}
	}
	return all, first
}

func (p *Pool) named(q int, e *genError) bool {
	v, ui := p.Variants[q/10000], q/100%100
	for _, pat := range []string{
		fmt.Sprintf("%s/u%d/", v.Name, ui), fmt.Sprintf("%s_u%d_", v.Name, ui), fmt.Sprintf("%s.u%d.", v.Name, ui),
		fmt.Sprintf("lue%d_%d", q/10000, ui), fmt.Sprintf("/schema/%s/u%d", v.Name, ui), fmt.Sprintf("c_%s/u%d_", v.Name, ui),
	} {
		if strings.Contains(e.What, pat) || strings.Contains(e.Out, pat) {
			return true
		}
	}
	return false
}
