package main

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
)

// loadEnv takes over the offline tool settings of /opt/vp/env.sh (dotnet, go).
func loadEnv() {
	out, err := exec.Command("bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0").Output()
	if err != nil {
		return
	}
	for _, kv := range strings.Split(string(out), "\x00") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			os.Setenv(k, v)
		}
	}
}

func main() {
	loadEnv()
	cmd := ""
	if len(os.Args) > 1 {
		cmd = os.Args[1]
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("SIM_REPO"); d != "" {
		repoDir = d
	}
	code := 2
	switch cmd {
	case "check":
		code = withScratch(func() int { return cmdCheck(os.Args[2:]) })
	case "replay":
		code = withScratch(func() int { return cmdReplay(os.Args[2:]) })
	case "setup":
		code = setup()
	case "toolbuild":
		b, err := buildSimTool(os.Args[2])
		fmt.Println(b, err)
	case "toolrun":
		code = cmdToolRun(os.Args[2:])
	case "toolsmoke":
		code = cmdToolSmoke(os.Args[2:])
	case "smoke":
		code = withScratch(func() int { return cmdSmoke() })
	default:
		fmt.Fprintln(os.Stderr, "usage: sim check -property ID [-tier quick|thorough] [-seed N] | replay [-trace] FILE | smoke SEED")
	}
	os.Exit(code)
}

func cmdSmoke() int {
	seed, _ := strconv.Atoi(os.Args[2])
	p := &Pool{Dir: scratch, Variants: baseVariants()}
	var err error
	p.Bubbler, err = buildBubbler(scratch)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for i := 0; i < 3; i++ {
		p.Unis = append(p.Unis, genUniverse(i, NewRNG(seedOf("uni", seed, i)), GenCfg{Structs: 9, Dyn: true, Big: true, Odd: true, Consts: true, Voids: true, Embeds: true, Nested: true, Arrays: true, Floats: true, BigEnums: true, MaxArr: 9}))
	}
	p.index()
	if err := p.Build(); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Println("gen", p.genSecs, "build", p.buildSecs)
	smoke(p)
	return 0
}

// setup reports the tools the checks use.
func setup() int {
	for _, t := range []string{"go", "gcc", "g++", "java", "javac", "node", "python3", "dotnet"} {
		p, err := exec.LookPath(t)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Println(t, p)
	}
	return 0
}
