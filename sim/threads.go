package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
)

// ---- calls of generated code that overlap ---------------------------------------
//
// A worker of a pool with Threads can be told to run several calls at once, each in a
// thread of its own. Only one of these threads runs at any time: the generated code
// was made to stop at very many points (every memory access in C and C++, every
// statement in Go, Java, C# and Kotlin, every instruction in Python), and at each
// of them the schedule the simulator sent decides who goes on. So a schedule is one
// exactly repeatable interleaving. JavaScript has no such threads: its calls run
// whole, in the order of the schedule.
//
// The command is "T <n> {<thread> <points>}... <calls> {<op> <a> <b> <off> <api>}...", where op is E
// (encode slot a into buffer b), D (decode buffer b into slot a), Z (decode_size for type a
// of buffer b) or S (encode_size of slot a). The answer is "ok <result>... / <switches> <points>".

// ---- C and C++ --------------------------------------------------------------------

// cThreads is the scheduler for C and C++ workers, and the runtime gcc's -fsanitize=thread
// expects: every access to memory that is not provably the thread's own calls it.
const cThreads = `
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>
#ifdef __cplusplus
#define SIMX extern "C"
#else
#define SIMX
#endif
static int t_cur = -1, t_n, t_ns, t_pos, t_done[8];
static long t_budget, t_points, t_switches;
static struct { int j; long n; } t_sched[256];
static struct { char op; int a, b; size_t off; int api; int bad; long long r; } t_calls[8];
static sem_t t_sem[8], t_main;
static int t_pick(int me) {
  while (t_pos < t_ns) { int j = t_sched[t_pos].j; t_budget = t_sched[t_pos].n; t_pos++; if (j < t_n && !t_done[j]) return j; }
  t_budget = LONG_MAX;
  if (me >= 0 && !t_done[me]) return me;
  for (int j = 0; j < t_n; j++) if (!t_done[j]) return j;
  return -1;
}
SIMX __attribute__((noinline)) void sim_point(void) {
  if (t_cur < 0) return;
  t_points++;
  if (--t_budget > 0) return;
  int me = t_cur, j = t_pick(me);
  if (j == me) return;
  t_switches++; t_cur = j; sem_post(&t_sem[j]); while (sem_wait(&t_sem[me])) {}
}
static void t_call(int k);
static void* t_main_of(void* a) {
  int k = (int)(intptr_t)a;
  while (sem_wait(&t_sem[k])) {}
  t_call(k);
  t_done[k] = 1;
  int j = t_pick(-1);
  t_cur = j;
  sem_post(j < 0 ? &t_main : &t_sem[j]);
  return 0;
}
static void t_run(void) {
  t_ns = (int)tok_u(); if (t_ns > 256) t_ns = 256;
  for (int i = 0; i < t_ns; i++) { t_sched[i].j = (int)tok_u(); t_sched[i].n = (long)tok_u(); }
  t_n = (int)tok_u();
  for (int k = 0; k < t_n; k++) { t_calls[k].op = tok()[0]; t_calls[k].a = (int)tok_u(); t_calls[k].b = (int)tok_u(); t_calls[k].off = tok_u(); t_calls[k].api = (int)tok_u(); t_calls[k].bad = 0; t_calls[k].r = 0; t_done[k] = 0; }
  t_pos = 0; t_points = t_switches = 0;
  pthread_t th[8];
  sem_init(&t_main, 0, 0);
  for (int k = 0; k < t_n; k++) { sem_init(&t_sem[k], 0, 0); pthread_create(&th[k], 0, t_main_of, (void*)(intptr_t)k); }
  int j = t_pick(-1);
  if (j >= 0) { t_cur = j; sem_post(&t_sem[j]); while (sem_wait(&t_main)) {} }
  t_cur = -1;
  printf("ok");
  for (int k = 0; k < t_n; k++) { pthread_join(th[k], 0); if (t_calls[k].bad) printf(" ex"); else printf(" %lld", t_calls[k].r); }
  printf(" / %ld %ld\n", t_switches, t_points);
}
#define P_(n) SIMX void __tsan_read##n(void* p) { sim_point(); } SIMX void __tsan_write##n(void* p) { sim_point(); } SIMX void __tsan_volatile_read##n(void* p) { sim_point(); } SIMX void __tsan_volatile_write##n(void* p) { sim_point(); } \
  SIMX void __tsan_unaligned_read##n(void* p) { sim_point(); } SIMX void __tsan_unaligned_write##n(void* p) { sim_point(); }
P_(1) P_(2) P_(4) P_(8) P_(16)
SIMX void __tsan_init(void) {} SIMX void __tsan_func_entry(void* p) { sim_point(); } SIMX void __tsan_func_exit(void) {}
SIMX void __tsan_read_range(void* p, unsigned long n) { sim_point(); } SIMX void __tsan_write_range(void* p, unsigned long n) { sim_point(); }
SIMX void __tsan_vptr_update(void** p, void* v) { *p = v; } SIMX void __tsan_vptr_read(void** p) {}
#define A_(N, T) SIMX T __tsan_atomic##N##_load(const volatile T* a, int m) { sim_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  SIMX void __tsan_atomic##N##_store(volatile T* a, T v, int m) { sim_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  SIMX T __tsan_atomic##N##_exchange(volatile T* a, T v, int m) { sim_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  SIMX T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int m) { sim_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  SIMX T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int m) { sim_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  SIMX T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int m) { sim_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  SIMX T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int m) { sim_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  SIMX T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int m) { sim_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  SIMX int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int m, int f) { sim_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  SIMX int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { sim_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
A_(8, unsigned char) A_(16, unsigned short) A_(32, unsigned int) A_(64, unsigned long)
SIMX void __tsan_atomic_thread_fence(int m) {} SIMX void __tsan_atomic_signal_fence(int m) {}
`

const cCall = `
static void t_call(int k) {
  switch (t_calls[k].op) {
  case 'E': t_calls[k].r = (long long)slots[t_calls[k].a].t->enc(slots[t_calls[k].a].p, bufs[t_calls[k].b].p + t_calls[k].off); break;
  case 'D': t_calls[k].r = slots[t_calls[k].a].t->dec(slots[t_calls[k].a].p, bufs[t_calls[k].b].p + t_calls[k].off); break;
  case 'S': t_calls[k].r = (long long)slots[t_calls[k].a].t->encsize(slots[t_calls[k].a].p); break;
  case 'Z': t_calls[k].r = types(t_calls[k].a)->decsize(bufs[t_calls[k].b].p + t_calls[k].off, bufs[t_calls[k].b].n - t_calls[k].off); break;
  }
}
`

const cppCall = `
static void t_call(int k) {
  auto& c = t_calls[k];
  try {
  switch (c.op) {
  case 'E': c.r = (long long)slots[c.a]->enc(bufs[c.b].p + c.off, bufs[c.b].n - c.off, c.api); break;
  case 'D': c.r = slots[c.a]->dec(bufs[c.b].p + c.off, bufs[c.b].n - c.off, c.api); break;
  case 'S': c.r = (long long)slots[c.a]->encsize(); break;
  case 'Z': c.r = types().at(c.a).decsize(bufs[c.b].p + c.off, bufs[c.b].n - c.off, c.api); break;
  }
  } catch (const std::exception& e) { c.bad = 1; }
}
`

// ---- Go -----------------------------------------------------------------------------

const goThreads = `package rt

import (
	"fmt"
	"strings"
)

var (
	tCur                = -1
	tBudget, tPts, tSws int
	tSched              [][2]int
	tDone               []bool
	tWake               []chan bool
	tMain               chan bool
)

func tPick(me int) int {
	for len(tSched) > 0 {
		e := tSched[0]
		tSched = tSched[1:]
		tBudget = e[1]
		if e[0] < len(tDone) && !tDone[e[0]] {
			return e[0]
		}
	}
	tBudget = 1 << 60
	if me >= 0 && !tDone[me] {
		return me
	}
	for j, d := range tDone {
		if !d {
			return j
		}
	}
	return -1
}

// Y is where a call may be made to wait.
func Y() {
	if tCur < 0 {
		return
	}
	tPts++
	if tBudget--; tBudget > 0 {
		return
	}
	me := tCur
	j := tPick(me)
	if j == me {
		return
	}
	tSws++
	tCur = j
	tWake[j] <- true
	<-tWake[me]
}

func Run(t *Tok, call func(op string, a, b, off int) int) string {
	tSched = nil
	for n := t.U(); n > 0; n-- {
		tSched = append(tSched, [2]int{int(t.U()), int(t.U())})
	}
	n := int(t.U())
	tDone, tWake, tMain = make([]bool, n), make([]chan bool, n), make(chan bool, 1)
	tPts, tSws = 0, 0
	res := make([]string, n)
	for k := 0; k < n; k++ {
		op, a, b, off := t.Next(), int(t.U()), int(t.U()), int(t.U())
		t.U()
		tWake[k] = make(chan bool, 1)
		go func(k int) {
			<-tWake[k]
			func() {
				defer func() {
					if e := recover(); e != nil {
						res[k] = "ex"
					}
				}()
				res[k] = fmt.Sprint(call(op, a, b, off))
			}()
			tDone[k] = true
			j := tPick(-1)
			tCur = j
			if j < 0 {
				tMain <- true
			} else {
				tWake[j] <- true
			}
		}(k)
	}
	if j := tPick(-1); j >= 0 {
		tCur = j
		tWake[j] <- true
		<-tMain
	}
	tCur = -1
	return fmt.Sprintf("ok %s / %d %d", strings.Join(res, " "), tSws, tPts)
}
`

// goYields puts a stop before every statement of the functions of a Go file.
func goYields(src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	n := 0
	list := func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			n++
			out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("sim__rt"), Sel: ast.NewIdent("Y")}}}, s)
		}
		return out
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		switches := map[*ast.BlockStmt]bool{}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			switch s := x.(type) {
			case *ast.SwitchStmt:
				switches[s.Body] = true
			case *ast.TypeSwitchStmt:
				switches[s.Body] = true
			case *ast.SelectStmt:
				switches[s.Body] = true
			case *ast.BlockStmt:
				if !switches[s] {
					s.List = list(s.List)
				}
			case *ast.CaseClause:
				s.Body = list(s.Body)
			case *ast.CommClause:
				s.Body = list(s.Body)
			}
			return true
		})
	}
	if n == 0 {
		return src, nil
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("sim__rt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"simmod/rt"`}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// ---- Java and C# ------------------------------------------------------------------

const javaY = `package simy;
import java.util.concurrent.Semaphore;
public final class Y {
  public static int cur = -1; static long budget, points, switches; static int pos; static long[] sched; static boolean[] done; static Semaphore[] wake; static Semaphore main;
  static int pick(int me) {
    while (pos < sched.length) { int j = (int)sched[pos]; budget = sched[pos + 1]; pos += 2; if (j < done.length && !done[j]) return j; }
    budget = Long.MAX_VALUE;
    if (me >= 0 && !done[me]) return me;
    for (int j = 0; j < done.length; j++) if (!done[j]) return j;
    return -1;
  }
  public static void y() {
    if (cur < 0) return;
    points++;
    if (--budget > 0) return;
    int me = cur, j = pick(me);
    if (j == me) return;
    switches++; cur = j; wake[j].release(); wake[me].acquireUninterruptibly();
  }
  public static String run(long[] s, java.util.function.LongSupplier[] calls) {
    int n = calls.length; sched = s; pos = 0; points = switches = 0; done = new boolean[n]; wake = new Semaphore[n]; main = new Semaphore(0);
    String[] res = new String[n]; Thread[] th = new Thread[n];
    for (int i = 0; i < n; i++) { final int k = i; wake[k] = new Semaphore(0);
      th[k] = new Thread(null, () -> { wake[k].acquireUninterruptibly(); try { res[k] = Long.toString(calls[k].getAsLong()); } catch (Throwable e) { res[k] = "ex"; }
        done[k] = true; int j = pick(-1); cur = j; (j < 0 ? main : wake[j]).release(); }, "t" + k, 1 << 20);
      th[k].start(); }
    int j = pick(-1);
    if (j >= 0) { cur = j; wake[j].release(); main.acquireUninterruptibly(); }
    cur = -1;
    return "ok " + String.join(" ", res) + " / " + switches + " " + points;
  }
}
`

const csY = `using System; using System.Threading;
namespace SimY { public static class Y {
  static int cur = -1, pos; static long budget, points, switches; static long[] sched; static bool[] done; static SemaphoreSlim[] wake; static SemaphoreSlim main;
  static int pick(int me) {
    while (pos < sched.Length) { int j = (int)sched[pos]; budget = sched[pos + 1]; pos += 2; if (j < done.Length && !done[j]) return j; }
    budget = long.MaxValue;
    if (me >= 0 && !done[me]) return me;
    for (int j = 0; j < done.Length; j++) if (!done[j]) return j;
    return -1;
  }
  public static void y() {
    if (cur < 0) return;
    points++;
    if (--budget > 0) return;
    int me = cur, j = pick(me);
    if (j == me) return;
    switches++; cur = j; wake[j].Release(); wake[me].Wait();
  }
  public static string run(long[] s, Func<long>[] calls) {
    int n = calls.Length; sched = s; pos = 0; points = switches = 0; done = new bool[n]; wake = new SemaphoreSlim[n]; main = new SemaphoreSlim(0);
    var res = new string[n];
    for (int i = 0; i < n; i++) { int k = i; wake[k] = new SemaphoreSlim(0);
      new Thread(() => { wake[k].Wait(); try { res[k] = calls[k]().ToString(); } catch (Exception) { res[k] = "ex"; }
        done[k] = true; int j = pick(-1); cur = j; (j < 0 ? main : wake[j]).Release(); }, 1 << 20) { IsBackground = true }.Start(); }
    int f = pick(-1);
    if (f >= 0) { cur = f; wake[f].Release(); main.Wait(); }
    cur = -1;
    return "ok " + string.Join(" ", res) + " / " + switches + " " + points;
  }
} }
`

// braceYields puts a call before the statements of the methods of a Java or C# file, where
// that is certain to be a place for a statement. (What it gets wrong does not compile, and
// the file is then used as it was.)
func braceYields(src, call string) string {
	type ctx struct {
		code  bool
		paren int
	}
	var out strings.Builder
	stack := []ctx{{}}
	paren := 0
	prev := ""                  // the token before
	var stmt []string           // tokens since the last boundary, at the paren depth of this block
	after := false              // a statement may begin here
	jumped := false             // the statement before left the block
	emit := func(next string) { // before the token next
		if !after {
			return
		}
		after = false
		top := stack[len(stack)-1]
		if !top.code || paren != top.paren || jumped {
			return
		}
		switch next {
		case "}", "case", "default", "else", "catch", "finally", "while", "super", "this", ")", ";", ",", "base":
			return
		}
		out.WriteString(call)
	}
	has := func(w string) bool {
		for _, t := range stmt {
			if t == w {
				return true
			}
		}
		return false
	}
	word := func(c byte) bool {
		return c == '_' || c == '$' || c == '@' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
	}
	for i := 0; i < len(src); {
		c := src[i]
		rest := src[i:]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			out.WriteByte(c)
			i++
			continue
		case strings.HasPrefix(rest, "//") || c == '#' && (i == 0 || strings.TrimLeft(src[strings.LastIndexByte(src[:i], '\n')+1:i], " \t") == ""):
			n := strings.IndexByte(rest, '\n')
			if n < 0 {
				n = len(rest)
			}
			out.WriteString(rest[:n])
			i += n
			continue
		case strings.HasPrefix(rest, "/*"):
			n := strings.Index(rest, "*/")
			if n < 0 {
				return src
			}
			out.WriteString(rest[:n+2])
			i += n + 2
			continue
		case c == '"' || c == '\'':
			n := 1
			for n < len(rest) && rest[n] != c {
				if rest[n] == '\\' {
					n++
				}
				n++
			}
			if n >= len(rest) || strings.HasSuffix(prev, "@") || strings.HasPrefix(rest, `"""`) {
				return src
			}
			emit("\"")
			out.WriteString(rest[:n+1])
			i += n + 1
			prev = "\""
			stmt = append(stmt, prev)
			continue
		}
		tok := string(c)
		if word(c) {
			n := 1
			for n < len(rest) && word(rest[n]) {
				n++
			}
			tok = rest[:n]
		} else if strings.HasPrefix(rest, "->") || strings.HasPrefix(rest, "=>") {
			tok = rest[:2]
		}
		emit(tok)
		out.WriteString(tok)
		i += len(tok)
		top := &stack[len(stack)-1]
		switch tok {
		case "(", "[":
			paren++
		case ")", "]":
			paren--
		case "{":
			code := false
			switch prev {
			case ")":
				code = !has("new") && !has("class")
			case "else", "do", "try", "finally", "unchecked", "checked", "unsafe", "get", "set", "init":
				code = true
			case "->":
				code = true
			case ";", "{", "}":
				code = top.code
			default:
				code = !top.code && has("throws")
			}
			stack = append(stack, ctx{code, paren})
			stmt, after, jumped = nil, code, false
			prev = tok
			continue
		case "}":
			if len(stack) == 1 {
				return src
			}
			stack = stack[:len(stack)-1]
			stmt, after = nil, false
			prev = tok
			continue
		case ";":
			if paren == top.paren {
				jumped = false
				if len(stmt) > 0 {
					switch stmt[0] {
					case "return", "throw", "break", "continue", "goto", "yield":
						jumped = true
					}
				}
				stmt, after = nil, true
				prev = tok
				continue
			}
		case ":":
			// a label or case: what follows is a statement of its own
			if paren == top.paren && len(stmt) > 0 && (stmt[0] == "case" || stmt[0] == "default") {
				stmt = nil
				prev = tok
				continue
			}
		}
		stmt = append(stmt, tok)
		prev = tok
	}
	return out.String()
}

// withYields rewrites the files below dir with one of the suffixes, runs build and, if that fails,
// puts the files back and builds again.
func (p *Pool) withYields(dir string, suffixes []string, f func(src string) string, build func() error) error {
	if !p.Threads {
		return build()
	}
	orig := map[string][]byte{}
	err := filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		ok := false
		for _, s := range suffixes {
			ok = ok || strings.HasSuffix(path, s)
		}
		if !ok {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		orig[path] = b
		return os.WriteFile(path, []byte(f(string(b))), 0o644)
	})
	if err != nil {
		return err
	}
	err = build()
	if _, bad := err.(*genError); !bad {
		return err
	}
	if os.Getenv("SIM_NOTES") != "" {
		fmt.Println("with stops in it:", trunc(err.Error(), 1500))
	}
	for path, b := range orig {
		if err := os.WriteFile(path, b, 0o644); err != nil {
			return err
		}
	}
	return build()
}

// ---- Python --------------------------------------------------------------------------

const pyThreads = `
import threading, os
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
class Sched:
    def __init__(self, sched, n):
        self.sched, self.pos, self.budget, self.cur, self.points, self.switches = sched, 0, 0, -1, 0, 0
        self.done = [False] * n
        self.wake = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
    def pick(self, me):
        while self.pos < len(self.sched):
            j, self.budget = self.sched[self.pos]
            self.pos += 1
            if j < len(self.done) and not self.done[j]: return j
        self.budget = 1 << 60
        if me >= 0 and not self.done[me]: return me
        for j, d in enumerate(self.done):
            if not d: return j
        return -1
    def point(self):
        self.points += 1
        self.budget -= 1
        if self.budget > 0: return
        me = self.cur
        j = self.pick(me)
        if j == me: return
        self.switches += 1
        self.cur = j
        self.wake[j].release()
        self.wake[me].acquire()
    def local(self, frame, event, arg):
        if event == 'opcode': self.point()
        return self.local
    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(HERE) or f == __file__ or f.endswith('worker.py'): return None
        frame.f_trace_opcodes = True
        return self.local
    def run(self, calls):
        res = [None] * len(calls)
        def one(k):
            self.wake[k].acquire()
            sys.settrace(self.trace)
            try: res[k] = str(calls[k]())
            except Exception as e: res[k] = 'ex'
            finally: sys.settrace(None)
            self.done[k] = True
            j = self.pick(-1)
            self.cur = j
            (self.main if j < 0 else self.wake[j]).release()
        ts = [threading.Thread(target=one, args=(k,), daemon=True) for k in range(len(calls))]
        for t in ts: t.start()
        j = self.pick(-1)
        if j >= 0:
            self.cur = j
            self.wake[j].release()
            self.main.acquire()
        for t in ts: t.join()
        return 'ok ' + ' '.join(res) + ' / %d %d' % (self.switches, self.points)
def together(t):
    sched = [(int(next(t)), int(next(t))) for _ in range(int(next(t)))]
    calls = []
    for _ in range(int(next(t))):
        op, a, b, off, api = next(t), int(next(t)), int(next(t)), int(next(t)), int(next(t))
        def call(op=op, a=a, b=b, off=off, api=api):
            if op == 'E': return slots[a][0].encode(memoryview(bufs[b])[off:])
            if op == 'S': return slots[a][0].encode_size()
            if op == 'Z':
                n, mods, desc, raw = TYPES[a]
                return mods[n]().decode_size(win(bufs[b], off, api))
            ok, r = slots[a][0].decode(win(bufs[b], off, api))
            return r if ok else (r if r < 0 else -1000 - r)
        calls.append(call)
    return Sched(sched, len(calls)).run(calls)
`

// ---- JavaScript -------------------------------------------------------------------------

const jsThreads = `
function together(f) {
  let i = 1; const n = () => Number(f[i++]);
  const order = []; for (let k = n(); k > 0; k--) { order.push(n()); n(); }
  const calls = []; for (let k = n(); k > 0; k--) { const op = f[i++]; calls.push([op, n(), n(), n(), n()]); }
  const res = new Array(calls.length).fill(null);
  for (const k of [...order, ...calls.keys()]) {
    if (k >= calls.length || res[k] !== null) continue;
    const [op, a, b, off, api] = calls[k];
    let r;
    try { r = go(op === 'S' ? 'S ' + a : op + ' ' + a + ' ' + b + ' ' + off + ' ' + api); } catch (e) { r = 'ex'; }
    res[k] = r.startsWith('ok ') ? r.slice(3) : 'ex';
  }
  return 'ok ' + res.join(' ') + ' / 0 0';
}
`

// ---- Kotlin ------------------------------------------------------------------------------

type ktSched struct {
	vm              *kvm
	cur, budget     int
	points, switchs int
	sched           [][2]int
	done            []bool
	wake            []chan bool
	main            chan bool
}

func (s *ktSched) pick(me int) int {
	for len(s.sched) > 0 {
		e := s.sched[0]
		s.sched = s.sched[1:]
		s.budget = e[1]
		if e[0] < len(s.done) && !s.done[e[0]] {
			return e[0]
		}
	}
	s.budget = 1 << 60
	if me >= 0 && !s.done[me] {
		return me
	}
	for j, d := range s.done {
		if !d {
			return j
		}
	}
	return -1
}

func (s *ktSched) point() {
	s.points++
	if s.budget--; s.budget > 0 {
		return
	}
	me := s.cur
	j := s.pick(me)
	if j == me {
		return
	}
	s.switchs++
	d := s.vm.depth
	s.cur = j
	s.wake[j] <- true
	<-s.wake[me]
	s.vm.depth = d
}

// together runs calls of Kotlin code in turns. What the interpreter has to say other
// than a result (a refusal to understand, say) is passed on.
func (w *ktWorker) together(t *ktTokens) string {
	s := &ktSched{vm: w.vm, cur: -1, main: make(chan bool, 1)}
	for n := t.n(); n > 0; n-- {
		a := t.n()
		s.sched = append(s.sched, [2]int{a, t.n()})
	}
	n := t.n()
	res := make([]string, n)
	pan := make([]any, n)
	s.done, s.wake = make([]bool, n), make([]chan bool, n)
	for k := 0; k < n; k++ {
		op, a, b, off, api := t.next(), t.next(), t.next(), t.next(), t.next()
		cmd := &ktTokens{[]string{op, a, b, off, api}, 0}
		s.wake[k] = make(chan bool, 1)
		go func() {
			<-s.wake[k]
			func() {
				defer func() { pan[k] = recover() }()
				w.vm.depth = 0
				res[k] = strings.TrimPrefix(w.op(cmd), "ok ")
			}()
			s.done[k] = true
			j := s.pick(-1)
			s.cur = j
			if j < 0 {
				s.main <- true
			} else {
				s.wake[j] <- true
			}
		}()
	}
	w.vm.point = s.point
	if j := s.pick(-1); j >= 0 {
		s.cur = j
		s.wake[j] <- true
		<-s.main
	}
	w.vm.point, w.vm.depth = nil, 0
	for k, p := range pan {
		if p == nil {
			continue
		}
		if _, ok := p.(ktThrow); !ok {
			panic(p)
		}
		res[k] = "ex"
	}
	return fmt.Sprintf("ok %s / %d %d", strings.Join(res, " "), s.switchs, s.points)
}
