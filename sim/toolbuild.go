package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

//go:embed overlay/syscall_sim.go.txt
var overlaySyscall string

//go:embed overlay/runtime_sim.go.txt
var overlayRuntime string

// stdEdit is one change to the standard library of the simulated build: the
// program under test is compiled unchanged, the seam is below it.
type stdEdit struct{ file, old, new string }

var stdEdits = []stdEdit{
	{"syscall/syscall_linux.go", "func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tvar errno uintptr\n",
		"func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif simOn {\n\t\tif r, e, ok := simCall(trap, a1, a2, a3, a4, a5, a6); ok {\n\t\t\treturn r, 0, e\n\t\t}\n\t}\n\tvar errno uintptr\n"},
	{"syscall/syscall_linux.go", "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
		"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif simOn {\n\t\tif r, e, ok := simCall(trap, a1, a2, a3, 0, 0, 0); ok {\n\t\t\treturn r, 0, e\n\t\t}\n\t}\n"},
	{"syscall/syscall_linux.go", "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
		"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif simOn {\n\t\tif r, e, ok := simCall(trap, a1, a2, a3, a4, a5, a6); ok {\n\t\t\treturn r, 0, e\n\t\t}\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "r0, _ := rawSyscallNoError(SYS_GETPID, 0, 0, 0)", "r0, _, _ := RawSyscall(SYS_GETPID, 0, 0, 0)"},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\treturn simRand()\n\t}\n"},
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n", "\t*seed = [32]byte{1, 2, 3, 4, 5, 6, 7, 8}\n\tglobalRand.state.Init(*seed)\n"},
	{"runtime/time.go", "\treturn time_now()\n", "\tif simOn {\n\t\treturn simNow()\n\t}\n\treturn time_now()\n"},
}

// buildSimTool compiles /repo's working tree against the simulated system
// interface.
func buildSimTool(dir string) (string, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "src")
	od := filepath.Join(dir, "overlay")
	if err := os.MkdirAll(od, 0o755); err != nil {
		return "", err
	}
	repl := map[string]string{}
	texts := map[string]string{}
	for _, e := range stdEdits {
		t, ok := texts[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, e.file))
			if err != nil {
				return "", err
			}
			t = string(b)
		}
		if strings.Count(t, e.old) != 1 {
			return "", fmt.Errorf("standard library %s: %d places for %q", e.file, strings.Count(t, e.old), e.old)
		}
		texts[e.file] = strings.Replace(t, e.old, e.new, 1)
	}
	texts["syscall/zz_sim_linux.go"] = overlaySyscall
	texts["runtime/zz_sim.go"] = overlayRuntime
	for f, t := range texts {
		p := filepath.Join(od, strings.ReplaceAll(f, "/", "_"))
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			return "", err
		}
		repl[filepath.Join(src, f)] = p
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	oj := filepath.Join(od, "overlay.json")
	if err := os.WriteFile(oj, j, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "bubbler.sim")
	env := []string{"CGO_ENABLED=0"}
	if o, err := run(repoDir, 10*time.Minute, env, "go", "build", "-overlay", oj, "-o", bin, "."); err != nil {
		return "", fmt.Errorf("simulated build of /repo failed: %v\n%s", err, tail(o, 2000))
	}
	return bin, nil
}
