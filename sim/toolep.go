package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// ---- episodes of the tool simulator ----------------------------------------------

// Blob is text that survives JSON whatever its bytes are.
type Blob string

func (b Blob) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(b)) {
		return json.Marshal(string(b))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(b))})
}

func (b *Blob) UnmarshalJSON(j []byte) error {
	if len(j) > 0 && j[0] == '{' {
		var m map[string]string
		if err := json.Unmarshal(j, &m); err != nil {
			return err
		}
		d, err := base64.StdEncoding.DecodeString(m["b64"])
		*b = Blob(d)
		return err
	}
	var s string
	err := json.Unmarshal(j, &s)
	*b = Blob(s)
	return err
}

// TFile is a file on the simulated disk, in parts that can be left out.
type TFile struct {
	Path  string
	Parts []Blob
}

func (f *TFile) text() string {
	var b strings.Builder
	for _, p := range f.Parts {
		b.WriteString(string(p))
	}
	return b.String()
}

// ToolEp is one simulated run of the tool, written out in full.
type ToolEp struct {
	Prop   string
	Kind   string            `json:",omitempty"` // scenario
	Files  []TFile           `json:",omitempty"` // sources
	Links  map[string]string `json:",omitempty"`
	Dirs   []string          `json:",omitempty"`
	Pre    []TFile           `json:",omitempty"` // everything else on the disk before
	Out    string            `json:",omitempty"` // where outputs go: a directory, or a file with -single
	Ref    *Proc             `json:",omitempty"` // the undisturbed invocation
	Files2 []TFile           `json:",omitempty"` // the other form of the sources
	Out2   string            `json:",omitempty"`
	Phases []Phase           `json:",omitempty"`
	Base   [2]string         // spelling of the place, before and after a move
	Expect string            `json:",omitempty"`
	Names  []string          `json:",omitempty"` // what a diagnostic has to name one of
	Files3 []string          `json:",omitempty"` // expected output files
	Keep   []Blob            `json:",omitempty"` // text the run is about
}

type ToolReplay struct {
	Ep *ToolEp
}

// TViol is a violation of a tool property.
type TViol struct{ Kind, Msg string }

func tviol(kind, f string, a ...any) *TViol { return &TViol{kind, fmt.Sprintf(f, a...)} }

type toolStats struct {
	runs, procs, steps, checks int64
	faults                     map[string]int64
	kinds                      map[string]int64
	calls                      map[string]int64
	sched                      map[uint64]bool
	states                     map[uint64]bool
	outcomes                   map[string]int64
	known                      map[string]int64 // recorded findings met
	nontrivial                 map[uint64]bool
	samples                    []any
}

func newToolStats() *toolStats {
	return &toolStats{faults: map[string]int64{}, kinds: map[string]int64{}, calls: map[string]int64{}, sched: map[uint64]bool{}, states: map[uint64]bool{}, outcomes: map[string]int64{}, known: map[string]int64{}, nontrivial: map[uint64]bool{}}
}

func (s *toolStats) add(o *toolStats) {
	s.runs += o.runs
	s.procs += o.procs
	s.steps += o.steps
	s.checks += o.checks
	for _, p := range []struct{ a, b map[string]int64 }{{s.faults, o.faults}, {s.kinds, o.kinds}, {s.calls, o.calls}, {s.outcomes, o.outcomes}, {s.known, o.known}} {
		for k, v := range p.b {
			p.a[k] += v
		}
	}
	for _, p := range []struct{ a, b map[uint64]bool }{{s.sched, o.sched}, {s.states, o.states}, {s.nontrivial, o.nontrivial}} {
		for k := range p.b {
			p.a[k] = true
		}
	}
}

// simTool runs episodes.
type simTool struct {
	bin   string
	st    *toolStats
	quiet bool
	trace bool
	log   []uint64 // a hash per phase: what happened
	fault bool     // something was injected in this episode
}

type infraError struct{ error }

// phase runs one phase on a copy-on-entry basis: fs is consumed.
func (t *simTool) phase(fs *simFS, ph *Phase) (*PhaseResult, *simFS) {
	pr, out, err := runPhase(t.bin, fs, ph)
	if err != nil {
		panic(infraError{err})
	}
	h := fnv.New64a()
	for i, r := range pr.Res {
		fmt.Fprintf(h, "|%d %d %s %v|", i, r.Exit, r.Signal, r.Crashed)
		t.st.procs++
		for _, o := range r.Ops {
			fmt.Fprintf(h, "%d%s%s%d%d%s;", o.Step, o.Name, o.Path, o.N, o.Err, o.Fault)
			t.st.calls[o.Name]++
			if o.Fault != "" {
				t.fault = true
				k := o.Fault
				if i := strings.IndexByte(k, ' '); i > 0 && strings.HasPrefix(k, "short") {
					k = "short"
				}
				t.st.faults[k+" in "+o.Name]++
				s := fnv.New64a()
				fmt.Fprintf(s, "%s %s %s", o.Name, o.Path, k)
				t.st.states[s.Sum64()] = true
			}
		}
		if t.trace {
			fmt.Printf("process %d: %s %s -> exit %d %s crashed=%v\n", i, ph.Procs[i].Cwd, strings.Join(ph.Procs[i].Args, " "), r.Exit, r.Signal, r.Crashed)
			for _, o := range r.Ops {
				fmt.Println("   ", o)
			}
			fmt.Printf("    stderr: %s\n", r.Err)
			if len(r.Rt) > 0 {
				fmt.Printf("    runtime: %s\n", tail(string(r.Rt), 3000))
			}
		}
		switch {
		case r.Crashed:
			t.st.outcomes["killed"]++
		case r.Signal != "":
			t.st.outcomes[r.Signal]++
		default:
			t.st.outcomes[fmt.Sprintf("exit %d", r.Exit)]++
		}
		if r.Crashed && ph.Procs[i].Machine {
			t.st.faults["power loss"]++
		}
	}
	for _, e := range ph.Edits {
		t.st.faults["concurrent "+e.Op]++
		t.fault = true
	}
	if len(ph.Procs) > 1 {
		t.st.faults["interleaved processes"]++
		t.fault = true
	}
	t.st.steps += int64(pr.Steps)
	t.log = append(t.log, h.Sum64())
	return pr, out
}

func (t *simTool) one(fs *simFS, p Proc) (*Result, *simFS) {
	pr, out := t.phase(fs, &Phase{Procs: []Proc{p}})
	return pr.Res[0], out
}

// disk is the disk as the episode finds it.
func (ep *ToolEp) disk(files []TFile, pre bool) *simFS {
	fs := newFS()
	fs.mkdirAll("/work")
	fs.mkdirAll("/tmp")
	for _, d := range ep.Dirs {
		fs.mkdirAll(d)
	}
	for i := range files {
		fs.put(files[i].Path, []byte(files[i].text()))
	}
	for l, t := range ep.Links {
		fs.link(l, t)
	}
	if pre {
		for i := range ep.Pre {
			fs.put(ep.Pre[i].Path, []byte(ep.Pre[i].text()))
		}
	}
	return fs
}

func (t *simTool) check(ep *ToolEp) (v *TViol) {
	t.log, t.fault = nil, false
	p := toolProp(ep.Prop)
	v = p.Check(t, ep)
	t.st.runs++
	t.st.kinds[ep.Kind]++
	h := fnv.New64a()
	for _, x := range t.log {
		fmt.Fprint(h, x, ",")
	}
	t.st.sched[h.Sum64()] = true
	if t.fault || p.Always {
		t.st.nontrivial[h.Sum64()] = true
	}
	if len(t.st.samples) < 1 {
		t.st.samples = append(t.st.samples, toolSample(ep))
	}
	return v
}

func toolSample(ep *ToolEp) any {
	var fl []string
	for _, f := range ep.Files {
		fl = append(fl, fmt.Sprintf("%s (%d bytes)", f.Path, len(f.text())))
	}
	return map[string]any{"kind": ep.Kind, "sources": fl, "invocation": ep.Ref, "out": ep.Out, "phases": ep.Phases, "expect": ep.Expect}
}

func (tp *toolProperty) gen(t *simTool, seed uint64) (ep *ToolEp, err error) {
	defer func() {
		if x := recover(); x != nil {
			ie, ok := x.(infraError)
			if !ok {
				panic(x)
			}
			ep, err = nil, ie.error
		}
	}()
	ep = tp.Gen(t, NewRNG(seed))
	ep.Prop = tp.ID
	return ep, nil
}

// safely runs one episode; ok is false when the infrastructure failed.
func (t *simTool) safely(ep *ToolEp) (v *TViol, err error) {
	defer func() {
		if x := recover(); x != nil {
			ie, ok := x.(infraError)
			if !ok {
				panic(x)
			}
			err = ie.error
		}
	}()
	v = t.check(ep)
	if v != nil && strings.HasPrefix(v.Kind, "finding:") {
		for _, f := range knownFindings() {
			if f.prop == ep.Prop && "finding:"+f.key == v.Kind {
				t.st.known[f.key]++
				return nil, nil
			}
		}
	}
	return v, nil
}

var knownFindings = sync.OnceValue(loadFindings)

type toolProperty struct {
	ID     string
	Eps    int // episodes in a quick check
	Gen    func(t *simTool, r *RNG) *ToolEp
	Check  func(t *simTool, ep *ToolEp) *TViol
	Rule   string
	Always bool // every run counts as disturbed
	What   string
}

func toolProp(id string) *toolProperty {
	for _, p := range toolProps() {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (tp *toolProperty) check(tier string, seed uint64) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp(scratch, "tool")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, err := buildSimTool(dir)
	if err != nil {
		if _, err2 := buildSimTool(dir); err2 != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	built := time.Since(t0).Seconds()
	n := tp.Eps
	var deadline time.Time
	if tier == "thorough" {
		n = 1 << 30
		deadline = t0.Add(thoroughTime())
	}
	if tier != "thorough" {
		// on a slow machine rather less than an answer too late
		deadline = t0.Add(7 * time.Minute)
	}
	if s := os.Getenv("SIM_EPS"); s != "" {
		n = int(atoiMust(s))
	}
	st := newToolStats()
	var mu sync.Mutex
	next, found := 0, -1
	var fep *ToolEp
	var fv *TViol
	var ferr error
	unstable := int64(0)
	var wg sync.WaitGroup
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := &simTool{bin: bin, st: newToolStats()}
			for {
				mu.Lock()
				i := next
				next++
				stop := ferr != nil || i >= n || (found >= 0 && i > found) || (!deadline.IsZero() && time.Now().After(deadline))
				mu.Unlock()
				if stop {
					break
				}
				ep, err := tp.gen(t, seedOf(tp.ID, seed, i))
				if err != nil {
					ep, err = tp.gen(t, seedOf(tp.ID, seed, i))
				}
				var v *TViol
				if err == nil {
					v, err = t.safely(ep)
				}
				if err != nil && ep != nil {
					v, err = t.safely(ep)
				}
				if err == nil && v == nil && i%64 == 0 {
					// the same run again, step for step
					was := append([]uint64(nil), t.log...)
					v, err = t.safely(ep)
					same := len(was) == len(t.log)
					for k := range was {
						same = same && was[k] == t.log[k]
					}
					if !same {
						mu.Lock()
						unstable++
						mu.Unlock()
					}
				}
				if err != nil {
					mu.Lock()
					ferr = err
					mu.Unlock()
					break
				}
				if v != nil {
					mu.Lock()
					if found < 0 || i < found {
						found, fep, fv = i, ep, v
					}
					mu.Unlock()
				}
			}
			mu.Lock()
			if len(st.samples) < 3 {
				st.samples = append(st.samples, t.st.samples...)
			}
			st.add(t.st)
			mu.Unlock()
		}()
	}
	wg.Wait()
	if ferr != nil && found < 0 {
		fmt.Fprintln(os.Stderr, "infrastructure:", ferr)
		return 2
	}
	searched := time.Since(t0).Seconds() - built
	viols := 0
	var rep *Replay
	if found >= 0 {
		viols = 1
		fmt.Printf("episode %d: %s\nminimising\n", found, trunc(fv.Msg, 1500))
		t := &simTool{bin: bin, st: newToolStats()}
		fep, fv = t.minimise(fep, fv, 60*time.Second)
		rep = &Replay{Property: tp.ID, Seed: seed, Round: found, Message: fv.Msg, Kind: fv.Kind, Tool: &ToolReplay{Ep: fep}}
	}
	wall := time.Since(t0).Seconds()
	if err := writeEvidence(tp.ID, tier, seed, tp.coverage(st, seed, built, searched, unstable), wall, viols, toolAssumptions); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rep != nil {
		return report(rep)
	}
	for _, f := range knownFindings() {
		if f.prop == tp.ID && st.known[f.key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.prop, f.what)
		}
	}
	fmt.Printf("property %s held: %d simulated runs, %d processes, %d system calls, %d disturbances, %d distinct histories, %.0f s\n",
		tp.ID, st.runs, st.procs, st.steps, total(st.faults), len(st.sched), wall)
	return 0
}

var toolAssumptions = []string{
	"the simulated disk behaves as POSIX says for the calls the program makes; a call it does not know is refused and recorded",
	"the Go standard library and runtime are as shipped, except for the seam below package syscall, map seeds and clocks",
	"after power loss, each path written since the start is independently kept, lost, emptied, cut short or zero-filled",
}

func (tp *toolProperty) coverage(st *toolStats, seed uint64, built, searched float64, unstable int64) map[string]any {
	per := int64(float64(st.runs) / (searched / 3600))
	return map[string]any{
		"evaluations":                 st.runs,
		"distinct_nontrivial":         len(st.nontrivial),
		"rule":                        tp.Rule + " Distinct by the hash of every system call of every process with its result, its fault and its place in the schedule.",
		"samples":                     st.samples,
		"simulated_runs":              st.runs,
		"processes":                   st.procs,
		"seeds":                       fmt.Sprintf("VERIF_SEED=%d, one derived seed per run", seed),
		"runs_per_hour":               per,
		"simulated_time_s":            float64(st.steps) / 1000,
		"steps":                       st.steps,
		"faults_injected":             st.faults,
		"system_calls":                st.calls,
		"scenarios":                   st.kinds,
		"process_ends":                st.outcomes,
		"comparisons":                 st.checks,
		"distinct_histories":          len(st.sched),
		"distinct_states":             len(st.states),
		"state_measure":               "distinct (system call, path, fault) points that were struck",
		"repeated_runs_that_differed": unstable,
		"build_s":                     built,
		"simulate_s":                  searched,
		"ran_real":                    "the whole program built from /repo, unmodified, with its parser, compiler and generators",
		"ran_stub":                    "the kernel: disk, standard streams, process ids, clock, randomness and scheduling are the simulator's (seam in package syscall and the runtime's random source)",
	}
}

// ---- minimisation and replay ------------------------------------------------------

func (ep *ToolEp) copy() *ToolEp {
	b, err := json.Marshal(ep)
	if err != nil {
		panic(err)
	}
	var c ToolEp
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// shrinks lists smaller episodes, coarse ones first.
func (ep *ToolEp) shrinks() (out []func(e *ToolEp)) {
	for i := range ep.Phases {
		i := i
		if len(ep.Phases) > 1 {
			out = append(out, func(e *ToolEp) { e.Phases = append(e.Phases[:i:i], e.Phases[i+1:]...) })
		}
	}
	for i := range ep.Phases {
		i := i
		ph := &ep.Phases[i]
		for j := range ph.Edits {
			j := j
			out = append(out, func(e *ToolEp) { e.Phases[i].Edits = append(e.Phases[i].Edits[:j:j], e.Phases[i].Edits[j+1:]...) })
		}
		if len(ph.Procs) > 1 {
			for j := range ph.Procs {
				j := j
				out = append(out, func(e *ToolEp) { e.Phases[i].Procs = append(e.Phases[i].Procs[:j:j], e.Phases[i].Procs[j+1:]...) })
			}
		}
		for j := range ph.Procs {
			j := j
			p := &ph.Procs[j]
			for k := range p.Faults {
				k := k
				out = append(out, func(e *ToolEp) {
					q := &e.Phases[i].Procs[j]
					q.Faults = append(q.Faults[:k:k], q.Faults[k+1:]...)
				})
			}
			if p.Chunk != 0 {
				out = append(out, func(e *ToolEp) { e.Phases[i].Procs[j].Chunk = 0 })
			}
			if len(p.Env) > 0 {
				out = append(out, func(e *ToolEp) { e.Phases[i].Procs[j].Env = nil })
			}
			if p.Machine {
				out = append(out, func(e *ToolEp) { e.Phases[i].Procs[j].Machine = false })
			}
		}
		if len(ph.Sched) > 0 {
			out = append(out, func(e *ToolEp) { e.Phases[i].Sched = nil })
			out = append(out, func(e *ToolEp) { e.Phases[i].Sched = e.Phases[i].Sched[:len(e.Phases[i].Sched)/2] })
		}
	}
	for i := range ep.Pre {
		i := i
		out = append(out, func(e *ToolEp) { e.Pre = append(e.Pre[:i:i], e.Pre[i+1:]...) })
	}
	for i := range ep.Files {
		i := i
		path := ep.Files[i].Path
		out = append(out, func(e *ToolEp) {
			e.Files = append(e.Files[:i:i], e.Files[i+1:]...)
			for j := range e.Files2 {
				if e.Files2[j].Path == path || j == i {
					e.Files2 = append(e.Files2[:j:j], e.Files2[j+1:]...)
					break
				}
			}
		})
	}
	for i := range ep.Files {
		i := i
		for j := len(ep.Files[i].Parts) - 1; j >= 0; j-- {
			j := j
			out = append(out, func(e *ToolEp) {
				e.Files[i].Parts = append(e.Files[i].Parts[:j:j], e.Files[i].Parts[j+1:]...)
				if i < len(e.Files2) && j < len(e.Files2[i].Parts) && len(e.Files2[i].Parts) == len(ep.Files[i].Parts) {
					e.Files2[i].Parts = append(e.Files2[i].Parts[:j:j], e.Files2[i].Parts[j+1:]...)
				}
			})
		}
	}
	return out
}

// keeps tells whether the text the run is about is still there.
func (ep *ToolEp) keeps() bool {
	var all strings.Builder
	for i := range ep.Files {
		all.WriteString(ep.Files[i].text())
	}
	for _, k := range ep.Keep {
		if !strings.Contains(all.String(), string(k)) {
			return false
		}
	}
	return true
}

func (t *simTool) minimise(ep *ToolEp, v *TViol, limit time.Duration) (*ToolEp, *TViol) {
	end := time.Now().Add(limit)
	for again := true; again; {
		again = false
		for k := 0; ; k++ {
			s := ep.shrinks()
			if k >= len(s) || time.Now().After(end) {
				break
			}
			c := ep.copy()
			s[k](c)
			if !c.keeps() {
				continue
			}
			w, err := t.safely(c)
			if err == nil && w != nil && w.Kind == v.Kind {
				ep, v, again = c, w, true
				k--
			}
		}
		if time.Now().After(end) {
			break
		}
	}
	return ep, v
}

func replayTool(r *Replay, path string, trace bool) int {
	dir, err := os.MkdirTemp(scratch, "tool")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, err := buildSimTool(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	t := &simTool{bin: bin, st: newToolStats(), trace: trace}
	v, err := t.safely(r.Tool.Ep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if v == nil {
		fmt.Println("the recorded violation does not occur")
		return 0
	}
	fmt.Println(v.Msg)
	if v.Msg == r.Message {
		fmt.Println("(exactly as recorded)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

// treeDiff says how two directory listings differ; the second may have more when
// extra is true.
func treeDiff(want, got map[string]string, extra bool) string {
	var d []string
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			d = append(d, fmt.Sprintf("%s is missing", k))
		} else if g != want[k] {
			d = append(d, fmt.Sprintf("%s differs: %s", k, textDiff(want[k], g)))
		}
	}
	if !extra {
		for _, k := range sortedKeys(got) {
			if _, ok := want[k]; !ok {
				d = append(d, fmt.Sprintf("%s should not be there", k))
			}
		}
	}
	if len(d) > 3 {
		d = append(d[:3], fmt.Sprintf("and %d more", len(d)-3))
	}
	return strings.Join(d, "; ")
}

func textDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%d and %d bytes, from byte %d: %q, not %q", len(a), len(b), i, trunc(a[i:], 60), trunc(b[i:], 60))
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
