package main

import (
	"fmt"
	"strings"
)

// C nodes: one worker binary per variant (the generated names are global), one
// translation unit of glue per universe.

var cType = []string{"bool", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double"}

func cGlue(u *Universe, v *Variant, ui int) string {
	b := &src{}
	b.p("#include \"worker.h\"")
	if v.Single {
		b.p("#include \"u%d_single.h\"", ui)
	} else {
		for i := range u.Files {
			if !u.Files[i].Omit {
				b.p("#include \"%s.bb.h\"", strings.ReplaceAll(u.pkg(v.Name, i), ".", "/"))
			}
		}
	}
	for _, acc := range []bool{false, true} {
		if acc && v.Minimal {
			continue
		}
		sfx := ""
		if acc {
			sfx = "A"
		}
		for _, s := range u.Structs {
			b.p("static void fill%s_%s(struct %s* p) {", sfx, s.Name, s.Name)
			for _, f := range u.normals(s) {
				for i := 0; i < f.count(); i++ {
					lv := "p->" + f.Name
					if f.Len > 0 {
						lv += fmt.Sprintf("[%d]", i)
					}
					var rv string
					switch {
					case f.K == KStruct && acc:
						b.p("  { struct %s t = %s; fillA_%s(&t);", f.Ref, lv, f.Ref)
						if f.Len > 0 {
							b.p("    %s_set_%s_item(p, %d, t); }", s.Name, f.Name, i)
						} else {
							b.p("    %s_set_%s(p, t); }", s.Name, f.Name)
						}
						continue
					case f.K == KStruct:
						b.p("  fill_%s(&%s);", f.Ref, lv)
						continue
					case f.K == KString:
						rv = "tok_str()"
					case f.K == KBytes:
						b.p("  { struct bytes t; t.length = tok_bytes(&t.data);")
						if acc && f.Len > 0 {
							b.p("    %s_set_%s_item(p, %d, t); }", s.Name, f.Name, i)
						} else if acc {
							b.p("    %s_set_%s(p, t); }", s.Name, f.Name)
						} else {
							b.p("    %s = t; }", lv)
						}
						continue
					case f.K == KEnum:
						rv = fmt.Sprintf("(enum %s)tok_u()", f.Ref)
					case f.K == KF32:
						rv = "tok_f32()"
					case f.K == KF64:
						rv = "tok_f64()"
					case f.K == KBool:
						rv = "tok_u() != 0"
					case f.K.Signed():
						rv = fmt.Sprintf("(%s)tok_i()", cType[f.K])
					default:
						rv = fmt.Sprintf("(%s)tok_u()", cType[f.K])
					}
					switch {
					case acc && f.Len > 0:
						b.p("  %s_set_%s_item(p, %d, %s);", s.Name, f.Name, i, rv)
					case acc:
						b.p("  %s_set_%s(p, %s);", s.Name, f.Name, rv)
					default:
						b.p("  %s = %s;", lv, rv)
					}
				}
			}
			b.p("}")
			b.p("static void dump%s_%s(struct %s* p) {", sfx, s.Name, s.Name)
			for _, f := range u.normals(s) {
				for i := 0; i < f.count(); i++ {
					e := "p->" + f.Name
					if f.Len > 0 {
						e += fmt.Sprintf("[%d]", i)
					}
					if acc {
						if f.Len > 0 {
							e = fmt.Sprintf("%s_get_%s_item(p, %d)", s.Name, f.Name, i)
						} else {
							e = fmt.Sprintf("%s_get_%s(p)", s.Name, f.Name)
						}
					}
					switch {
					case f.K == KStruct && acc:
						b.p("  { struct %s t = %s; dumpA_%s(&t); }", f.Ref, e, f.Ref)
					case f.K == KStruct:
						b.p("  dump_%s(&%s);", f.Ref, e)
					case f.K == KString:
						b.p("  out_str(%s);", e)
					case f.K == KBytes:
						b.p("  { struct bytes t = %s; out_bytes(t.data, t.length); }", e)
					case f.K == KF32:
						b.p("  out_f32(%s);", e)
					case f.K == KF64:
						b.p("  out_f64(%s);", e)
					case f.K == KBool:
						b.p("  out_u(%s ? 1 : 0);", e)
					case f.K.Signed():
						b.p("  out_i(%s);", e)
					default:
						b.p("  out_u((uint64_t)%s);", e)
					}
				}
			}
			b.p("}")
		}
	}
	for _, s := range u.Structs {
		n := s.Name
		b.p("static void ug_%s(void* v, int k) { struct %s* p = (struct %s*)v; (void)p; switch (k) {", n, n, n)
		for k, a := range u.accs(s) {
			if a.A.Get != nil {
				b.p("case %d: %s; break;", k, cOut(a.A.T, fmt.Sprintf("%s_get_%s(p)", n, a.A.Name)))
			}
		}
		b.p("default: printf(\" ?\"); } }")
		b.p("static void us_%s(void* v, int k) { struct %s* p = (struct %s*)v; (void)p; switch (k) {", n, n, n)
		for k, a := range u.accs(s) {
			if a.A.Set != nil {
				b.p("case %d: %s_set_%s(p, %s); break;", k, n, a.A.Name, cTok(a.A.T))
			}
		}
		b.p("default: break; } }")
		b.p("static uint64_t e_%s(void* p, void* d) { return %s_encode((struct %s*)p, d); }", n, n, n)
		b.p("static int64_t d_%s(void* p, const void* d) { return %s_decode(d, (struct %s*)p); }", n, n, n)
		b.p("static void i_%s(void) { printf(\"ok %%d %%llu\\n\", (int)%s_dynamic, (unsigned long long)%s_size); }", n, n, n)
		b.p("static uint64_t s_%s(void* p) { return %s_encode_size((struct %s*)p); }", n, n, n)
		b.p("static int64_t z_%s(const void* d, uint64_t n) { return %s_decode_size(d, n); }", n, n)
	}
	for _, s := range u.Structs {
		b.p("static void own_%s(void* v) { struct %s* p = (struct %s*)v; (void)p;", s.Name, s.Name, s.Name)
		for _, f := range u.normals(s) {
			for i := 0; i < f.count(); i++ {
				lv := "p->" + f.Name
				if f.Len > 0 {
					lv += fmt.Sprintf("[%d]", i)
				}
				switch f.K {
				case KString:
					b.p("  own((void*)%s);", lv)
				case KBytes:
					b.p("  own((void*)%s.data);", lv)
				case KStruct:
					b.p("  own_%s(&%s);", f.Ref, lv)
				}
			}
		}
		b.p("}")
	}
	b.p("const Type types_%d[] = {", ui)
	for _, s := range u.Structs {
		n := s.Name
		a, c := fmt.Sprintf("(void(*)(void*))fillA_%s", n), fmt.Sprintf("(void(*)(void*))dumpA_%s", n)
		if v.Minimal {
			a, c = "0", "0"
		}
		b.p("  {sizeof(struct %s), (void(*)(void*))fill_%s, (void(*)(void*))dump_%s, %s, %s, e_%s, d_%s, s_%s, z_%s, ug_%s, us_%s, i_%s, own_%s},", n, n, n, a, c, n, n, n, n, n, n, n, n)
	}
	b.p("};")
	return b.String()
}

func cMain(uis []int) string {
	b := &src{}
	b.p("#include \"worker.h\"")
	for _, i := range uis {
		b.p("extern const Type types_%d[];", i)
	}
	b.p("static const Type* types(int tid) { int u = tid / 100 %% 100, s = tid %% 100; switch (u) {")
	for _, i := range uis {
		b.p("case %d: return &types_%d[s];", i, i)
	}
	b.p("} return 0; }")
	b.p("#include \"worker_main.h\"")
	return b.String()
}

const cWorkerH = `#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { size_t size; void (*fill)(void*); void (*dump)(void*); void (*fillA)(void*); void (*dumpA)(void*);
  uint64_t (*enc)(void*, void*); int64_t (*dec)(void*, const void*); uint64_t (*encsize)(void*); int64_t (*decsize)(const void*, uint64_t); void (*accget)(void*, int); void (*accset)(void*, int); void (*info)(void); void (*own)(void*); } Type;
void own(void* p);
char* tok(void);
uint64_t tok_u(void); int64_t tok_i(void); float tok_f32(void); double tok_f64(void); char* tok_str(void); uint64_t tok_bytes(uint8_t** p);
void out_u(uint64_t v); void out_i(int64_t v); void out_f32(float v); void out_f64(double v); void out_str(const char* s); void out_bytes(const uint8_t* p, uint64_t n);
`

// shim: heap allocations made by generated code go through the simulator, which
// may make the n-th one fail.
const cShimH = `#pragma once
#include <stdlib.h>
#include <string.h>
void* sim_malloc(size_t n); void* sim_calloc(size_t a, size_t n); void* sim_realloc(void* p, size_t n); char* sim_strdup(const char* s); char* sim_strndup(const char* s, size_t n);
#undef strdup
#undef strndup
#define malloc(n) sim_malloc(n)
#define calloc(a, n) sim_calloc(a, n)
#define realloc(p, n) sim_realloc(p, n)
#define strdup(s) sim_strdup(s)
#define strndup(s, n) sim_strndup(s, n)
`

const cWorkerMain = `
static char* cur;
char* tok(void) { while (*cur == ' ') cur++; char* s = cur; while (*cur && *cur != ' ') cur++; if (*cur) *cur++ = 0; return s; }
uint64_t tok_u(void) { return strtoull(tok(), 0, 10); }
int64_t tok_i(void) { return strtoll(tok(), 0, 10); }
float tok_f32(void) { uint32_t x = (uint32_t)strtoull(tok(), 0, 16); float f; memcpy(&f, &x, 4); return f; }
double tok_f64(void) { uint64_t x = strtoull(tok(), 0, 16); double f; memcpy(&f, &x, 8); return f; }
static int hx(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static uint64_t unhex(char* s, uint8_t** p, int nul) { size_t n = strlen(s) / 2; uint8_t* b = (malloc)(n + nul); for (size_t i = 0; i < n; i++) b[i] = hx(s[2*i]) * 16 + hx(s[2*i+1]); if (nul) b[n] = 0; *p = b; return n; }
char* tok_str(void) { uint8_t* p; unhex(tok() + 1, &p, 1); return (char*)p; }
uint64_t tok_bytes(uint8_t** p) { return unhex(tok() + 1, p, 0); }
static void hexout(const uint8_t* p, uint64_t n) { static const char d[] = "0123456789abcdef"; putchar('x'); for (uint64_t i = 0; i < n; i++) { putchar(d[p[i] >> 4]); putchar(d[p[i] & 15]); } }
void out_u(uint64_t v) { printf(" %llu", (unsigned long long)v); }
void out_i(int64_t v) { printf(" %lld", (long long)v); }
void out_f32(float v) { uint32_t x; memcpy(&x, &v, 4); if (v != v) printf(" nan"); else printf(" %x", x); }
void out_f64(double v) { uint64_t x; memcpy(&x, &v, 8); if (v != v) printf(" nan"); else printf(" %llx", (unsigned long long)x); }
void out_str(const char* s) { if (!s) { printf(" null"); return; } putchar(' '); hexout((const uint8_t*)s, strlen(s)); }
void out_bytes(const uint8_t* p, uint64_t n) { if (n == 0) { printf(" x"); return; } if (!p) { printf(" null"); return; } putchar(' '); hexout(p, n); }
static long fail_at = -1, failed = 0, allocs = 0; static int from_then = 0;
static int no_mem(void) { allocs++; if (fail_at > 0 && --fail_at == 0) { failed++; if (from_then) fail_at = 1; return 1; } return 0; }
void* sim_malloc(size_t n) { return no_mem() ? 0 : (malloc)(n); }
void* sim_calloc(size_t a, size_t n) { return no_mem() ? 0 : (calloc)(a, n); }
void* sim_realloc(void* p, size_t n) { return no_mem() ? 0 : (realloc)(p, n); }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = no_mem() ? 0 : (char*)(malloc)(n); return p ? (char*)memcpy(p, s, n) : 0; }
char* sim_strndup(const char* s, size_t n) { size_t m = strnlen(s, n); char* p = no_mem() ? 0 : (char*)(malloc)(m + 1); if (p) { memcpy(p, s, m); p[m] = 0; } return p; }
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*)) __attribute__((weak));
#define NOWN 65536
static const volatile void* own_p[NOWN]; static int own_n, own_taken, tracking; static long own_bad, own_freed;
static void on_malloc(const volatile void* p, size_t n) { if (tracking && p && own_n < NOWN) own_p[own_n++] = p; }
static void on_free(const volatile void* p) { if (!tracking || !p) return; for (int i = 0; i < own_n; i++) if (own_p[i] == p) { own_p[i] = own_p[--own_n]; return; } own_freed++; }
void own(void* p) { if (!p) return; for (int i = own_taken; i < own_n; i++) if (own_p[i] == p) { own_p[i] = own_p[own_taken]; own_p[own_taken++] = p; return; } own_bad++; }
static void op_own(const Type* t, const uint8_t* src, uint64_t held) {
  if (!__sanitizer_install_malloc_and_free_hooks) { printf("ok 0\n"); return; }
  static int hooked; if (!hooked) { hooked = 1; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
  fail_at = tok_i(); from_then = tok_u(); failed = allocs = 0; own_n = own_taken = 0; own_bad = own_freed = 0;
  void* p = (calloc)(1, t->size);
  tracking = 1; int64_t d = t->dec(p, src); tracking = 0; fail_at = -1;
  t->own(p);
  int got = own_n, left = own_n - own_taken; long bad = own_bad, freed = own_freed, enc = 0;
  tracking = 1; t->decsize(src, held); t->decsize(src, held / 2); tracking = 0; enc = (own_n - got) + (own_freed - freed);
  if (d > 0) { uint64_t n = t->encsize(p); uint8_t* o = (malloc)(n); memset(o, 0, n); tracking = 1; t->encsize(p); t->enc(p, o); tracking = 0; enc = (own_n - got) + (own_freed - freed); (free)(o); }
  if (!enc) for (int i = 0; i < own_n; i++) (free)((void*)own_p[i]);
  (free)(p);
  printf("ok 1 %lld %d %ld %d %ld %ld %ld\n", (long long)d, got, bad, left, freed, enc, failed);
}
#define NSLOT 64
static struct { void* p; const Type* t; } slots[NSLOT];
static struct { uint8_t* p; size_t n; } bufs[NSLOT];
` + cThreads + cCall + `
int main(void) {
  char* line = 0; size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    line[strcspn(line, "\n")] = 0; cur = line;
    char op = tok()[0];
    if (op == 'B') { int b = tok_u(); free(bufs[b].p); bufs[b].p = 0; bufs[b].n = 0; char* h = tok(); if (h[0] == 'x') bufs[b].n = unhex(h + 1, &bufs[b].p, 0); printf("ok\n"); }
    else if (op == 'M') { int b = tok_u(); size_t off = tok_u(); uint8_t* p; size_t n = unhex(tok() + 1, &p, 0); memcpy(bufs[b].p + off, p, n); free(p); printf("ok\n"); }
    else if (op == 'R') { int b = tok_u(); printf("ok "); hexout(bufs[b].p, bufs[b].n); putchar('\n'); }
    else if (op == 'T') t_run();
    else if (op == 'K') { fail_at = tok_i(); from_then = tok_u(); failed = allocs = 0; printf("ok\n"); }
    else if (op == 'k') { printf("ok %ld\n", tok_u() ? allocs : failed); fail_at = -1; failed = allocs = 0; }
    else if (op == 'O') { const Type* t = types(tok_u()); int b = tok_u(); size_t off = tok_u(); op_own(t, bufs[b].p + off, bufs[b].n - off); }
    else if (op == 'Z') { const Type* t = types(tok_u()); int b = tok_u(); size_t off = tok_u(); printf("ok %lld\n", (long long)t->decsize(bufs[b].p + off, bufs[b].n - off)); }
    else {
      int s = tok_u(); 
      if (op == 'N') { slots[s].t = types(tok_u()); free(slots[s].p); slots[s].p = (malloc)(slots[s].t->size); memset(slots[s].p, 0xA5, slots[s].t->size); printf("ok\n"); }
      else if (op == 'Y') { int d = tok_u(); slots[d].t = slots[s].t; free(slots[d].p); slots[d].p = (malloc)(slots[s].t->size); memcpy(slots[d].p, slots[s].p, slots[s].t->size); printf("ok\n"); }
      else if (op == 'F') { slots[s].t->fill(slots[s].p); printf("ok\n"); }
      else if (op == 'X') { slots[s].t->fillA(slots[s].p); printf("ok\n"); }
      else if (op == 'P') { printf("ok"); slots[s].t->dump(slots[s].p); putchar('\n'); }
      else if (op == 'G') { printf("ok"); slots[s].t->dumpA(slots[s].p); putchar('\n'); }
      else if (op == 'I') { slots[s].t->info(); }
      else if (op == 'S') { printf("ok %llu\n", (unsigned long long)slots[s].t->encsize(slots[s].p)); }
      else if (op == 'E') { int b = tok_u(); size_t off = tok_u(); printf("ok %llu\n", (unsigned long long)slots[s].t->enc(slots[s].p, bufs[b].p + off)); }
      else if (op == 'A') { int b = tok_u(); uint64_t n = slots[s].t->encsize(slots[s].p); free(bufs[b].p); bufs[b].p = (malloc)(n); memset(bufs[b].p, 0, n); bufs[b].n = n; uint64_t r = slots[s].t->enc(slots[s].p, bufs[b].p); if (r < n) bufs[b].n = r; printf("ok %llu\n", (unsigned long long)r); }
      else if (op == 'D') { int b = tok_u(); size_t off = tok_u(); printf("ok %lld\n", (long long)slots[s].t->dec(slots[s].p, bufs[b].p + off)); }
      else if (op == 'U') { printf("ok"); while (*cur) slots[s].t->accget(slots[s].p, (int)tok_u()); putchar('\n'); }
      else if (op == 'V') { int k = (int)tok_u(); slots[s].t->accset(slots[s].p, k); printf("ok\n"); }
      else printf("ex badop\n");
    }
    fflush(stdout);
  }
  return 0;
}
`

// cTok reads and cOut writes a scalar.
func cTok(k Kind) string {
	switch {
	case k == KF32:
		return "tok_f32()"
	case k == KF64:
		return "tok_f64()"
	case k == KBool:
		return "(tok_u() != 0)"
	case k.Signed():
		return fmt.Sprintf("(%s)tok_i()", cType[k])
	}
	return fmt.Sprintf("(%s)tok_u()", cType[k])
}

func cOut(k Kind, e string) string {
	switch {
	case k == KF32:
		return fmt.Sprintf("out_f32(%s)", e)
	case k == KF64:
		return fmt.Sprintf("out_f64(%s)", e)
	case k == KBool:
		return fmt.Sprintf("out_u(%s ? 1 : 0)", e)
	case k.Signed():
		return fmt.Sprintf("out_i(%s)", e)
	}
	return fmt.Sprintf("out_u((uint64_t)%s)", e)
}
