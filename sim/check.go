package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verifDir = "/verif"

// ---- known findings -------------------------------------------------------------

// A recorded finding is a line "finding: property=<id> key=<key> <what fails>" of
// known_findings.txt; key is what the check derives from the failing history.
type finding struct{ prop, key, what string }

func loadFindings() (out []finding) {
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "finding: ")
		if !ok {
			continue
		}
		var fd finding
		for {
			w, r, _ := strings.Cut(rest, " ")
			if v, ok := strings.CutPrefix(w, "property="); ok {
				fd.prop, rest = v, r
			} else if v, ok := strings.CutPrefix(w, "key="); ok {
				fd.key, rest = v, r
			} else {
				break
			}
		}
		fd.what = rest
		out = append(out, fd)
	}
	return out
}

// ---- evidence -------------------------------------------------------------------

func writeEvidence(prop, tier string, seed uint64, cov map[string]any, wall float64, viols int, assumptions []string) error {
	dir := filepath.Join(verifDir, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	e := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": viols, "assumptions": assumptions,
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

func report(r *Replay) int {
	path, err := writeReplay(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write replay:", err)
		return 2
	}
	fmt.Printf("%s\n", r.Message)
	if r.Episode != nil {
		fmt.Print(r.focus())
		fmt.Printf("minimised schedule (%d steps):\n", len(r.Episode.Steps))
		for i, s := range r.Episode.Steps {
			fmt.Printf("  %d %s\n", i, trunc(jsonStr(s), 400))
		}
	}
	if r.Tool != nil {
		fmt.Println(indent(trunc(jsonStr(r.Tool), 3000)))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

// focus renders the structs a run is about.
func (r *Replay) focus() string {
	var b strings.Builder
	seen := map[string]bool{}
	for _, n := range r.Episode.Nodes {
		u := r.Universes[n.U]
		if len(u.Structs) == 0 {
			continue
		}
		u.index()
		var walk func(s *Struct)
		walk = func(s *Struct) {
			if s == nil || seen[s.Name] {
				return
			}
			seen[s.Name] = true
			for _, f := range s.Fields {
				if f.Ref != "" {
					walk(u.strct(f.Ref))
				}
			}
			if s.Inline {
				return
			}
			var t strings.Builder
			u.renderStruct(&t, s, NewRNG(1), "", "")
			fmt.Fprintln(&b, indent(t.String()+"}"))
		}
		walk(u.Structs[n.S])
	}
	return b.String()
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n    ")
}

// buildPool makes the codecs; a failure is the code's unless it goes away when
// repeated.
func (p *Pool) prepare() error {
	var err error
	for try := 0; try < 2; try++ {
		if p.Bubbler == "" {
			if p.Bubbler, err = buildBubbler(p.Dir); err != nil {
				return err
			}
		}
		err = p.Build()
		if err == nil {
			return nil
		}
		if _, ok := err.(*genError); !ok {
			return err
		}
		if os.Getenv("SIM_FAST") != "" {
			return err
		}
		fmt.Println("build failed, once more:", trunc(err.Error(), 600))
	}
	return err
}

func (cp *codecProp) check(tier string, seed uint64) int {
	t0 := time.Now()
	rounds, eps := 1, cp.Eps
	if os.Getenv("SIM_FAST") != "" {
		eps /= 3
	}
	var deadline time.Time
	if tier == "thorough" {
		rounds, eps = 1000, cp.Eps*6
		deadline = t0.Add(thoroughTime())
	} else {
		deadline = t0.Add(7 * time.Minute) // a slow or busy machine: fewer runs rather than no answer
	}
	st := newStats()
	code := 0
	var rep *Replay
	for round := 0; round < rounds; round++ {
		if tier == "thorough" && round > 0 && time.Now().After(deadline) {
			break
		}
		dir, err := os.MkdirTemp(scratch, "pool")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		p := cp.plan(seed, round, dir)
		st.pairs += len(p.Use)
		st.builds++
		var o *outcome
		if err := p.prepare(); err != nil {
			ge, ok := err.(*genError)
			if !ok {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if os.Getenv("SIM_FAST") != "" { // for trying things out
				fmt.Println("VIOLATION (build)", trunc(ge.Error(), 300))
				return 1
			}
			o = &outcome{}
			o.pairs, o.buildEr = p.blame(ge)
		} else {
			st.genSecs += p.genSecs + p.buildSecs
			o, err = cp.search(p, seed, round, eps, st, deadline)
			if err != nil {
				// a worker that could not be started: once more
				fmt.Fprintln(os.Stderr, "infrastructure:", err)
				o, err = cp.search(p, seed, round, eps, st, deadline)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "infrastructure:", err)
				return 2
			}
			if o != nil {
				if os.Getenv("SIM_FAST") != "" {
					fmt.Println("VIOLATION", o.viol.Error())
					return 1
				}
				confirm(p, o)
				minimise(p, o, 60*time.Second)
			}
		}
		for s, n := range p.notes {
			st.notes[s] += int64(n)
		}
		if o != nil {
			rep = p.replayOf(cp.ID, seed, round, o)
		}
		if os.Getenv("SIM_KEEP") == "" {
			os.RemoveAll(dir)
		} else {
			fmt.Println("kept", dir)
		}
		if rep != nil {
			break
		}
	}
	wall := time.Since(t0).Seconds()
	viols := 0
	if rep != nil {
		viols = 1
	}
	if err := writeEvidence(cp.ID, tier, seed, cp.coverage(st, seed), wall, viols, cp.assumptions()); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rep != nil {
		code = report(rep)
	} else {
		fmt.Printf("property %s held: %d simulated runs over %d schema/target pairs, %d frames, %d comparisons, %d faults, %.0f s\n",
			cp.ID, st.runs, st.pairs, st.c.frames, st.c.checks, total(st.c.faults), wall)
	}
	return code
}

// confirm reruns a violation on fresh processes; when it needs what earlier runs
// left behind, they become part of it.
func confirm(p *Pool, o *outcome) {
	all := o.prelude
	for _, n := range []int{0, 1, 4, 16, len(all)} {
		if n > len(all) {
			n = len(all)
		}
		pre := all[len(all)-n:]
		v, err := once(p, pre, o.ep, false)
		if err == nil && v != nil && v.Kind == o.viol.Kind {
			o.prelude, o.viol = pre, v
			return
		}
		if n == len(all) {
			break
		}
	}
	o.prelude = all
}

var codecAssumptions = []string{
	"the reference layout model in sim/codec.go states the documented wire format",
	"gcc, g++, javac/JVM, dotnet, CPython, node and the Go compiler are right about the code they are given",
	"generated Kotlin runs in the simulator's own interpreter (sim/kt_*.go), which follows the Kotlin language specification; what it does not know is left out and counted, never judged",
	"C and C++ run under AddressSanitizer: an access outside a buffer is seen when it leaves the allocation",
}

func (cp *codecProp) assumptions() []string {
	if !cp.Threads {
		return codecAssumptions
	}
	return append(append([]string{}, codecAssumptions[:3]...),
		"C and C++ are built with gcc's thread instrumentation, not AddressSanitizer: calls are switched at accesses to memory that is not provably the thread's own, on one core, in sequentially consistent order",
		"JavaScript has one thread: calls run whole, in the order of the schedule")
}

func (cp *codecProp) coverage(st *stats, seed uint64) map[string]any {
	hours := st.runSecs / 3600
	per := func(n int64) float64 {
		if hours == 0 {
			return 0
		}
		return float64(int64(float64(n) / hours))
	}
	return map[string]any{
		"evaluations":            st.runs,
		"distinct_nontrivial":    len(st.sched),
		"rule":                   cp.Rule + " A run counts as non-trivial when at least one fault or disturbance was injected in it; distinct by the hash of nodes, operations and fault positions.",
		"samples":                st.samples,
		"simulated_runs":         st.runs,
		"seeds":                  fmt.Sprintf("VERIF_SEED=%d, one derived seed per run", seed),
		"runs_per_hour":          per(st.runs),
		"simulated_time_s":       float64(st.c.simus) / 1e6,
		"faults_injected":        sortedMap(st.c.faults),
		"operations":             sortedMap(st.c.ops),
		"frames":                 st.c.frames,
		"comparisons":            st.c.checks,
		"distinct_states":        len(st.states),
		"state_measure":          "distinct (generated type, operation, bytes held or damaged position) situations",
		"schema_target_pairs":    st.pairs,
		"pools_generated":        st.builds,
		"generate_and_compile_s": st.genSecs,
		"simulate_s":             st.runSecs,
		"ran_real":               "the compiler built from /repo; the code it generated for " + strings.Join(cp.Langs, ", ") + " in its real runtime (kt in the interpreter named under ran_stub)",
		"ran_stub":               "the medium, clocks, peers and memory images between nodes (simulated); allocation in C when failed on purpose; the Kotlin compiler and the JVM for Kotlin: an interpreter of the part of Kotlin the generator uses",
		"kotlin_not_understood":  sortedMap(st.notes),
	}
}

func sortedMap(m map[string]int64) map[string]int64 { return m } // encoding/json sorts keys

func thoroughTime() time.Duration {
	if s := os.Getenv("SIM_THOROUGH_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	return 720 * time.Second
}

// ---- commands -------------------------------------------------------------------

var scratch string

func envSeed() uint64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			return n
		}
	}
	return 1
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	seed := fs.Uint64("seed", envSeed(), "seed")
	fs.Parse(args)
	if *tier == "" {
		if *tier = os.Getenv("VERIF_TIER"); *tier == "" {
			*tier = "quick"
		}
	}
	for _, cp := range codecProps() {
		if cp.ID == *prop {
			return cp.check(*tier, *seed)
		}
	}
	if tp := toolProp(*prop); tp != nil {
		return tp.check(*tier, *seed)
	}
	fmt.Fprintln(os.Stderr, "unknown property", *prop)
	return 2
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	trace := fs.Bool("trace", false, "print every command")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: replay FILE")
		return 2
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if r.Tool != nil {
		return replayTool(&r, fs.Arg(0), *trace)
	}
	dir, err := os.MkdirTemp(scratch, "pool")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p, err := r.pool(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := p.Build(); err != nil {
		if ge, ok := err.(*genError); ok {
			fmt.Println(ge.Error())
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
			return 1
		}
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if r.Build {
		fmt.Println("the recorded violation does not occur: everything builds")
		return 0
	}
	v, err := once(p, r.Prelude, r.Episode, *trace)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if v == nil {
		fmt.Println("the recorded violation does not occur")
		return 0
	}
	fmt.Println(v.Error())
	if v.Error() == r.Message {
		fmt.Println("(exactly as recorded)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
	return 1
}

func withScratch(f func() int) int {
	var err error
	scratch, err = os.MkdirTemp("", "bubblersim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if os.Getenv("SIM_KEEP") == "" {
		defer os.RemoveAll(scratch)
	}
	tmp := filepath.Join(scratch, "tmp")
	os.MkdirAll(tmp, 0o755)
	os.Setenv("TMPDIR", tmp)
	return f()
}

func keys[M ~map[string]V, V any](m M) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
