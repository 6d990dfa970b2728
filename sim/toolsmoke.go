package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"
)

// cmdToolRun runs the simulated program once on a copy of a real directory.
func cmdToolRun(args []string) int {
	bin, dir := args[0], args[1]
	fs := newFS()
	fs.mkdirAll("/work")
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			fs.put("/work/"+r, b)
		}
		return nil
	})
	t0 := time.Now()
	pr, fs, err := runPhase(bin, fs, &Phase{Procs: []Proc{{Args: args[2:], Cwd: "/work", Seed: 1, Clock: 1e18, Pid: 7}}})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := pr.Res[0]
	for _, o := range r.Ops {
		fmt.Println(o)
	}
	fmt.Printf("exit %d %s in %v\nout %q\nerr %s\nrt %s\n", r.Exit, r.Signal, time.Since(t0), trunc(string(r.Out), 300), r.Err, tail(string(r.Rt), 2000))
	for k, v := range fs.tree("/") {
		fmt.Println(k, len(v))
	}
	return 0
}

func cmdToolSmoke(args []string) int {
	bin := args[0]
	n := int(atoiMust(args[1]))
	bad := map[string]int{}
	t0 := time.Now()
	for i := 0; i < n; i++ {
		r := NewRNG(seedOf("smoke", i))
		p := genProject(r, ProjCfg{Max: 6, Base: "/work/src", Methods: true, Fancy: true, Empty: true, Dense: 25})
		c := genCmd(r, "out")
		fs := newFS()
		p.install(fs)
		pr, _, err := runPhase(bin, fs, &Phase{Procs: []Proc{{Args: c.args(p.Units[0].Path), Cwd: "/work", Seed: uint64(i), Clock: 1e18, Pid: 7}}})
		if err != nil {
			fmt.Println(err)
			return 2
		}
		x := pr.Res[0]
		if x.Exit != 0 || len(x.Rt) > 0 {
			k := string(x.Err)
			bad[c.Target]++
			if bad[c.Target] < 3 {
				fmt.Printf("%d %s exit %d: %s\n%s\n", i, c.args(""), x.Exit, k, tail(string(x.Rt), 600))
				for _, u := range p.Units {
					fmt.Printf("--- %s\n%s", u.Path, u.text())
				}
			}
		}
	}
	fmt.Println(n, "runs", time.Since(t0), bad)
	return 0
}

func atoiMust(s string) int64 { n, _ := atoi(s); return n }
