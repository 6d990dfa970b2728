package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Pool is the set of generated codecs a simulation runs: universes (schemas) times
// variants (target and options), generated by the compiler built from /repo and
// compiled into one worker program per language (per variant for C).
type Pool struct {
	Dir      string
	Bubbler  string
	Unis     []*Universe
	Variants []*Variant
	Types    map[int]*typ
	Use      map[int]bool // tidOf(variant, universe, 0) of the pairs that exist; nil: all

	genSecs, buildSecs float64

	Threads bool         // calls are to overlap: see threads.go
	waits   atomic.Int64 // times a call waited for another one

	Kt     map[int]*ktProg // by tidOf(variant, universe, 0)
	noteMu sync.Mutex
	notes  map[string]int
}

// repoDir is the code under test; SIM_REPO points elsewhere when planted changes are tried
// out on scratch copies.
var repoDir = "/repo"

var sem = make(chan struct{}, runtime.NumCPU())

func run(dir string, timeout time.Duration, env []string, name string, args ...string) (string, error) {
	return runIn(context.Background(), dir, timeout, env, name, args...)
}

// runIn is run, given up when parent ends.
func runIn(parent context.Context, dir string, timeout time.Duration, env []string, name string, args ...string) (string, error) {
	sem <- struct{}{}
	defer func() { <-sem }()
	if parent.Err() != nil {
		return "", parent.Err()
	}
	ctx, cancel := context.WithTimeout(parent, timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	if parent.Err() != nil {
		err = parent.Err()
	} else if ctx.Err() != nil {
		err = fmt.Errorf("timed out after %v", timeout)
	}
	return out.String(), err
}

func buildBubbler(dir string) (string, error) {
	bin := filepath.Join(dir, "bubbler")
	out, err := run(repoDir, 5*time.Minute, nil, "go", "build", "-o", bin, ".")
	if err != nil {
		return "", fmt.Errorf("build of /repo failed: %v\n%s", err, tail(out, 2000))
	}
	return bin, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

var langTarget = map[string]string{"c": "c", "cpp": "cpp", "go": "go", "java": "java", "cs": "csharp", "py": "python", "esm": "esm", "cjs": "cjs", "kt": "kotlin"}
var langExt = map[string]string{"c": "h", "cpp": "hpp", "go": "go", "cs": "cs", "py": "py", "esm": "js", "cjs": "js"}

// genError means the generator itself, or a compiler on its output, failed for a
// valid schema.
type genError struct{ What, Out string }

func (e *genError) Error() string { return e.What + "\n" + tail(e.Out, 3000) }

func (p *Pool) uses(vi, ui int) bool {
	if p.Variants[vi].Lang == "kt" && p.Unis[ui].setOnly() {
		return false // documented: Kotlin has no write-only properties
	}
	return p.Use == nil || p.Use[tidOf(vi, ui, 0)]
}

func (p *Pool) outDir(v *Variant, ui int) string {
	switch v.Lang {
	case "c":
		return filepath.Join(p.Dir, "c_"+v.Name)
	case "cpp":
		return filepath.Join(p.Dir, "cpp")
	case "go":
		return filepath.Join(p.Dir, "go")
	case "java":
		return filepath.Join(p.Dir, "java")
	case "cs":
		return filepath.Join(p.Dir, "cs")
	case "py":
		return filepath.Join(p.Dir, "py")
	case "kt":
		return filepath.Join(p.Dir, "kt")
	}
	return filepath.Join(p.Dir, "js", v.Lang)
}

func (p *Pool) generate() error {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	for vi, v := range p.Variants {
		for ui, u := range p.Unis {
			if !p.uses(vi, ui) {
				continue
			}
			sd := filepath.Join(p.Dir, "schema", v.Name, fmt.Sprintf("u%d", ui))
			for i, x := range u.Files {
				if err := writeFile(filepath.Join(sd, x.Path+".bb"), u.Render(v.Name, i)); err != nil {
					return err
				}
			}
			out := p.outDir(v, ui)
			args := []string{"-t", langTarget[v.Lang]}
			args = append(args, v.Opts...)
			if v.Lang == "go" {
				args = append(args, "-rmpath", "simmod")
			}
			if v.Single {
				name := fmt.Sprintf("%s_u%d_single.%s", v.Name, ui, langExt[v.Lang])
				if v.Lang == "c" {
					name = fmt.Sprintf("u%d_single.h", ui)
				}
				if v.Lang == "go" {
					out = filepath.Join(out, u.goPkg(v.Name, len(u.Files)-1))
				}
				if err := os.MkdirAll(out, 0o755); err != nil {
					return err
				}
				args = append(args, "-o", filepath.Join(out, name))
			} else {
				args = append(args, "-o", out)
			}
			args = append(args, u.root().Path+".bb")
			wg.Add(1)
			go func() {
				defer wg.Done()
				o, err := runIn(ctx, sd, 60*time.Second, nil, p.Bubbler, args...)
				if err != nil {
					mu.Lock()
					defer stop()
					if first == nil {
						first = &genError{fmt.Sprintf("generation failed: bubbler %s (schema %s): %v", strings.Join(args, " "), sd, err), o}
					}
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	return first
}

func (p *Pool) has(lang string) bool {
	for vi, v := range p.Variants {
		for ui := range p.Unis {
			if v.Lang == lang && p.uses(vi, ui) {
				return true
			}
		}
	}
	return false
}

func (p *Pool) each(lang string, f func(v *Variant, vi int, u *Universe, ui int) error) error {
	for vi, v := range p.Variants {
		if v.Lang != lang {
			continue
		}
		for ui, u := range p.Unis {
			if !p.uses(vi, ui) {
				continue
			}
			if err := f(v, vi, u, ui); err != nil {
				return err
			}
		}
	}
	return nil
}

// par runs jobs concurrently and returns the first error.
func par(jobs ...func() error) error {
	errs := make([]error, len(jobs))
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = j() }()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func compile(dir string, name string, args ...string) error {
	out, err := run(dir, 10*time.Minute, nil, name, args...)
	if err != nil {
		return &genError{fmt.Sprintf("generated code does not compile: %s %s: %v", name, strings.Join(args, " "), err), out}
	}
	return nil
}

const asan = "-fsanitize=address"

func (p *Pool) buildC(v *Variant, vi int) error {
	var uis []int
	for ui := range p.Unis {
		if p.uses(vi, ui) {
			uis = append(uis, ui)
		}
	}
	if len(uis) == 0 {
		return nil
	}
	dir := filepath.Join(p.Dir, "c_"+v.Name)
	for n, t := range map[string]string{"worker.h": cWorkerH, "worker_main.h": cWorkerMain, "shim.h": cShimH, "main.c": cMain(uis)} {
		if err := writeFile(filepath.Join(dir, n), t); err != nil {
			return err
		}
	}
	if p.Threads {
		if err := p.linkC(v, dir, uis, []string{"-fsanitize=thread"}, nil); err == nil {
			return nil
		}
	}
	return p.linkC(v, dir, uis, []string{asan}, []string{asan})
}

func (p *Pool) linkC(v *Variant, dir string, uis []int, gen, all []string) error {
	var jobs []func() error
	var objs []string
	cc := func(srcf string, shim bool) {
		o := strings.ReplaceAll(strings.TrimSuffix(srcf, ".c"), "/", "_") + ".o"
		objs = append(objs, o)
		args := []string{"-std=gnu11", "-O1", "-w", "-I.", "-c", srcf, "-o", o}
		if shim {
			args = append(append(args, "-include", "shim.h"), gen...)
		} else {
			args = append(args, all...)
		}
		jobs = append(jobs, func() error { return compile(dir, "gcc", args...) })
	}
	for _, ui := range uis {
		u := p.Unis[ui]
		g := fmt.Sprintf("glue%d.c", ui)
		if err := writeFile(filepath.Join(dir, g), cGlue(u, v, ui)); err != nil {
			return err
		}
		if v.Single {
			// generated functions are in the glue's translation unit
			cc(g, true)
			continue
		}
		cc(g, false)
		for i, x := range u.Files {
			if !x.Omit {
				cc(strings.ReplaceAll(u.pkg(v.Name, i), ".", "/")+".bb.c", true)
			}
		}
	}
	cc("main.c", false)
	if err := par(jobs...); err != nil {
		return err
	}
	return compile(dir, "gcc", append(append(append([]string{"-o", "worker"}, all...), objs...), "-lm")...)
}

func (p *Pool) buildCpp() error {
	dir := filepath.Join(p.Dir, "cpp")
	if err := writeFile(filepath.Join(dir, "worker.hpp"), cppWorkerH); err != nil {
		return err
	}
	if err := writeFile(filepath.Join(dir, "main.cpp"), cppWorkerMain); err != nil {
		return err
	}
	if p.Threads {
		if err := p.linkCpp(dir, "-fsanitize=thread", nil); err == nil {
			return nil
		}
	}
	return p.linkCpp(dir, asan, []string{asan})
}

func (p *Pool) linkCpp(dir, gen string, all []string) error {
	var jobs []func() error
	var objs []string
	cc := func(srcf, std, san string) {
		o := strings.ReplaceAll(strings.TrimSuffix(srcf, ".cpp"), "/", "_") + ".o"
		objs = append(objs, o)
		jobs = append(jobs, func() error {
			return compile(dir, "g++", append(strings.Fields(san), std, "-O0", "-w", "-I.", "-c", srcf, "-o", o)...)
		})
	}
	if err := p.each("cpp", func(v *Variant, vi int, u *Universe, ui int) error {
		g := fmt.Sprintf("glue%d_%d.cpp", vi, ui)
		if err := writeFile(filepath.Join(dir, g), cppGlue(u, v, vi, ui)); err != nil {
			return err
		}
		std := "-std=c++20"
		if v.Compat {
			std = "-std=c++17"
		}
		cc(g, std, gen)
		if !v.Single {
			for i, x := range u.Files {
				if !x.Omit {
					cc(strings.ReplaceAll(u.pkg(v.Name, i), ".", "/")+".bb.cpp", std, gen)
				}
			}
		}
		return nil
	}); err != nil {
		return err
	}
	cc("main.cpp", "-std=c++20", strings.Join(all, " "))
	if err := par(jobs...); err != nil {
		return err
	}
	return compile(dir, "g++", append(append([]string{"-o", "worker", "-Wl,--wrap=_Znam,--wrap=_Znwm"}, all...), objs...)...)
}

func (p *Pool) buildGo() error {
	dir := filepath.Join(p.Dir, "go")
	imports := ""
	if err := p.each("go", func(v *Variant, vi int, u *Universe, ui int) error {
		imports += fmt.Sprintf("\t_ \"simmod/glue%d_%d\"\n", vi, ui)
		return writeFile(filepath.Join(dir, fmt.Sprintf("glue%d_%d", vi, ui), "glue.go"), goGlue(u, v, vi, ui))
	}); err != nil {
		return err
	}
	for n, t := range map[string]string{"go.mod": "module simmod\n\ngo 1.20\n", "rt/rt.go": goRT, "rt/threads.go": goThreads, "main.go": strings.Replace(goMain, "IMPORTS", imports, 1)} {
		if err := writeFile(filepath.Join(dir, n), t); err != nil {
			return err
		}
	}
	return p.withYields(dir, []string{".bb.go", "_single.go"}, func(s string) string {
		if b, err := goYields([]byte(s)); err == nil {
			return string(b)
		}
		return s
	}, func() error {
		out, err := run(dir, 10*time.Minute, []string{"GOFLAGS=-mod=mod -buildvcs=false"}, "go", "build", "-gcflags=-l=4", "-o", "worker", ".")
		if err != nil {
			return &genError{"generated Go code does not compile", out}
		}
		return nil
	})
}

func (p *Pool) buildJava() error {
	dir := filepath.Join(p.Dir, "java")
	reg := ""
	var files []string
	if err := p.each("java", func(v *Variant, vi int, u *Universe, ui int) error {
		g := fmt.Sprintf("Glue%d_%d.java", vi, ui)
		files = append(files, g)
		reg += fmt.Sprintf("Glue%d_%d.reg(types);\n", vi, ui)
		return writeFile(filepath.Join(dir, g), javaGlue(u, v, vi, ui))
	}); err != nil {
		return err
	}
	if err := writeFile(filepath.Join(dir, "Main.java"), javaRT+strings.Replace(javaMain, "REG", reg, 1)); err != nil {
		return err
	}
	if err := writeFile(filepath.Join(dir, "simy", "Y.java"), javaY); err != nil {
		return err
	}
	files = append(files, "Main.java")
	return p.withYields(dir, []string{".java"}, func(s string) string {
		if strings.HasPrefix(s, "package simy;") || !strings.Contains(s, "package ") {
			return s
		}
		return braceYields(s, " simy.Y.y(); ")
	}, func() error {
		return p.javac(dir, files)
	})
}

func (p *Pool) javac(dir string, files []string) error {
	return compile(dir, "javac", append([]string{"-nowarn", "-g:none", "-proc:none", "-J-XX:-UsePerfData", "-J-XX:+UseSerialGC", "-J-Xmx2g", "-d", "classes", "-sourcepath", "."}, files...)...)
}

func (p *Pool) buildCs() error {
	dir := filepath.Join(p.Dir, "cs")
	reg := ""
	if err := p.each("cs", func(v *Variant, vi int, u *Universe, ui int) error {
		reg += fmt.Sprintf("Glue%d_%d.reg(types);\n", vi, ui)
		return writeFile(filepath.Join(dir, fmt.Sprintf("Glue%d_%d.cs", vi, ui)), csGlue(u, v, vi, ui))
	}); err != nil {
		return err
	}
	if err := writeFile(filepath.Join(dir, "Program.cs"), strings.Replace(csMain, "REG", reg, 1)); err != nil {
		return err
	}
	if err := writeFile(filepath.Join(dir, "SimY.cs"), csY); err != nil {
		return err
	}
	return p.withYields(dir, []string{".bb.cs", "_single.cs"}, func(s string) string {
		return braceYields(s, " global::SimY.Y.y(); ")
	}, func() error { return csc(dir) })
}

// csc compiles the C# files below dir with the SDK's compiler itself: the build system
// around it now and then waits for itself forever.
func csc(dir string) error {
	bin, err := exec.LookPath("dotnet")
	if err != nil {
		return err
	}
	if bin, err = filepath.EvalSymlinks(bin); err != nil {
		return err
	}
	root := filepath.Dir(bin)
	compiler, _ := filepath.Glob(filepath.Join(root, "sdk", "*", "Roslyn", "bincore", "csc.dll"))
	refs, _ := filepath.Glob(filepath.Join(root, "packs", "Microsoft.NETCore.App.Ref", "*", "ref", "net*", "*.dll"))
	if len(compiler) == 0 || len(refs) == 0 {
		return fmt.Errorf("no C# compiler below %s", root)
	}
	var rsp strings.Builder
	fmt.Fprintf(&rsp, "-nologo -noconfig -nostdlib+ -target:exe -out:bin/worker.dll -optimize+ -debug- -unsafe+ -deterministic+ -langversion:latest -nullable:disable -warn:0\n")
	last := filepath.Dir(refs[len(refs)-1])
	for _, r := range refs {
		if filepath.Dir(r) == last {
			fmt.Fprintf(&rsp, "-reference:%q\n", r)
		}
	}
	var srcs []string
	if err := filepath.WalkDir(dir, func(f string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(f, ".cs") {
			srcs = append(srcs, f)
		}
		return err
	}); err != nil {
		return err
	}
	for _, f := range srcs {
		fmt.Fprintf(&rsp, "%q\n", f)
	}
	ver := filepath.Base(filepath.Dir(filepath.Dir(last)))
	for n, t := range map[string]string{
		"worker.rsp":                    rsp.String(),
		"bin/worker.runtimeconfig.json": fmt.Sprintf(csRuntime, ver),
	} {
		if err := writeFile(filepath.Join(dir, n), t); err != nil {
			return err
		}
	}
	return compile(dir, "dotnet", compiler[len(compiler)-1], "@worker.rsp")
}

const csRuntime = `{"runtimeOptions":{"tfm":"net8.0","rollForward":"Major","framework":{"name":"Microsoft.NETCore.App","version":"%s"},
"configProperties":{"System.GC.Concurrent":false,"System.Globalization.Invariant":true,"System.Runtime.TieredPGO":false}}}
`

func (p *Pool) buildPy() error {
	return writeFile(filepath.Join(p.Dir, "py", "worker.py"), pyMain(p, "py"))
}

func (p *Pool) buildJs() error {
	if err := writeFile(filepath.Join(p.Dir, "js", "esm", "package.json"), `{"type":"module"}`); err != nil {
		return err
	}
	if err := writeFile(filepath.Join(p.Dir, "js", "cjs", "package.json"), `{"type":"commonjs"}`); err != nil {
		return err
	}
	return writeFile(filepath.Join(p.Dir, "js", "worker.mjs"), jsMain(p))
}

// Build generates and compiles everything. A *genError is a failure of the code
// under test on a valid schema.
func (p *Pool) Build() error {
	t0 := time.Now()
	if err := p.generate(); err != nil {
		return err
	}
	p.genSecs = time.Since(t0).Seconds()
	t0 = time.Now()
	var jobs []func() error
	if p.has("java") {
		jobs = append(jobs, p.buildJava)
	}
	if p.has("cs") {
		jobs = append(jobs, p.buildCs)
	}
	if p.has("go") {
		jobs = append(jobs, p.buildGo)
	}
	if p.has("py") {
		jobs = append(jobs, p.buildPy)
	}
	if p.has("esm") || p.has("cjs") {
		jobs = append(jobs, p.buildJs)
	}
	if p.has("kt") {
		jobs = append(jobs, p.buildKt)
	}
	if p.has("cpp") {
		jobs = append(jobs, p.buildCpp)
	}
	for vi, v := range p.Variants {
		if v.Lang == "c" {
			jobs = append(jobs, func() error { return p.buildC(v, vi) })
		}
	}
	timed := make([]func() error, len(jobs))
	for i, j := range jobs {
		timed[i] = j
	}
	err := par(timed...)
	if err == nil {
		// what is not compiled ahead must at least load: each program is started once
		// and has nothing to do
		var loads []func() error
		for _, k := range []string{"py", "js"} {
			if k == "py" && p.has("py") || k == "js" && (p.has("esm") || p.has("cjs")) {
				loads = append(loads, func() error {
					c := p.workerCmd(k)
					out, err := run(c.Dir, 5*time.Minute, nil, c.Args[0], c.Args[1:]...)
					if err != nil {
						return &genError{"generated code does not load (" + k + ")", out}
					}
					return nil
				})
			}
		}
		err = par(loads...)
	}
	p.buildSecs = time.Since(t0).Seconds()
	return err
}

func (p *Pool) index() {
	p.Types = map[int]*typ{}
	for vi, v := range p.Variants {
		for ui, u := range p.Unis {
			if !p.uses(vi, ui) {
				continue
			}
			for si, s := range u.Structs {
				id := tidOf(vi, ui, si)
				p.Types[id] = &typ{id, v, vi, u, ui, s, si}
			}
		}
	}
}

// workerKey names the program a variant's code lives in.
func workerKey(v *Variant) string {
	switch v.Lang {
	case "c":
		return "c_" + v.Name
	case "esm", "cjs":
		return "js"
	}
	return v.Lang
}

func (p *Pool) workerCmd(key string) *exec.Cmd {
	switch {
	case strings.HasPrefix(key, "c_"), key == "cpp", key == "go":
		return exec.Command(filepath.Join(p.Dir, key, "worker"))
	case key == "java":
		return exec.Command("java", "-XX:-UsePerfData", "-Xlog:disable", "-Xlog:all=error:stderr", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Xmx256m", "-Xss2m", "-cp", filepath.Join(p.Dir, "java", "classes"), "Main")
	case key == "cs":
		return exec.Command("dotnet", filepath.Join(p.Dir, "cs", "bin", "worker.dll"))
	case key == "py":
		c := exec.Command("python3", "worker.py")
		c.Dir = filepath.Join(p.Dir, "py")
		return c
	}
	c := exec.Command("node", "--max-old-space-size=256", "worker.mjs")
	c.Dir = filepath.Join(p.Dir, "js")
	return c
}
