package main

import (
	"fmt"
	"strings"
)

func cppGlue(u *Universe, v *Variant, vi, ui int) string {
	b := &src{}
	b.p("#include \"worker.hpp\"")
	if v.Single {
		b.p("#include \"%s_u%d_single.hpp\"", v.Name, ui)
	} else {
		for i := range u.Files {
			if !u.Files[i].Omit {
				b.p("#include \"%s.bb.hpp\"", strings.ReplaceAll(u.pkg(v.Name, i), ".", "/"))
			}
		}
	}
	b.p("namespace {")
	ty := func(n string) string { return "::" + u.cppNS(v.Name, u.fileOf(n)) + "::" + n }
	for _, s := range u.Structs {
		T := ty(s.Name)
		b.p("void fill(%s& o); void dump(const %s& o);", T, T)
		if !v.Minimal {
			b.p("void fillA(%s& o); void dumpA(%s& o);", T, T)
		}
	}
	for _, acc := range []bool{false, true} {
		if acc && v.Minimal {
			continue
		}
		sfx := ""
		if acc {
			sfx = "A"
		}
		for _, s := range u.Structs {
			T := ty(s.Name)
			b.p("void fill%s(%s& o) {", sfx, T)
			for _, f := range u.normals(s) {
				for i := 0; i < f.count(); i++ {
					lv := "o." + f.Name
					if f.Len > 0 {
						lv += fmt.Sprintf("[%d]", i)
					}
					var rv string
					switch {
					case f.K == KStruct && acc:
						b.p("  { %s t; fillA(t);", ty(f.Ref))
						if f.Len > 0 {
							b.p("    o.set_%s_item(%d, t); }", f.Name, i)
						} else {
							b.p("    o.set_%s(t); }", f.Name)
						}
						continue
					case f.K == KStruct:
						b.p("  fill(%s);", lv)
						continue
					case f.K == KString:
						rv = "tok_str()"
					case f.K == KBytes:
						rv = "tok_bytes()"
					case f.K == KEnum:
						rv = fmt.Sprintf("(%s)tok_u()", ty(f.Ref))
					case f.K == KF32:
						rv = "tok_f32()"
					case f.K == KF64:
						rv = "tok_f64()"
					case f.K == KBool:
						rv = "(tok_u() != 0)"
					case f.K.Signed():
						rv = fmt.Sprintf("(%s)tok_i()", cType[f.K])
					default:
						rv = fmt.Sprintf("(%s)tok_u()", cType[f.K])
					}
					switch {
					case acc && f.Len > 0:
						b.p("  o.set_%s_item(%d, %s);", f.Name, i, rv)
					case acc:
						b.p("  o.set_%s(%s);", f.Name, rv)
					default:
						b.p("  %s = %s;", lv, rv)
					}
				}
			}
			b.p("}")
			cq := "const "
			if acc {
				cq = ""
			}
			b.p("void dump%s(%s%s& o) {", sfx, cq, T)
			for _, f := range u.normals(s) {
				for i := 0; i < f.count(); i++ {
					e := "o." + f.Name
					if f.Len > 0 {
						e += fmt.Sprintf("[%d]", i)
					}
					if acc {
						if f.Len > 0 {
							e = fmt.Sprintf("o.get_%s_item(%d)", f.Name, i)
						} else {
							e = fmt.Sprintf("o.get_%s()", f.Name)
						}
					}
					switch {
					case f.K == KStruct && acc:
						b.p("  { %s t = %s; dumpA(t); }", ty(f.Ref), e)
					case f.K == KStruct:
						b.p("  dump(%s);", e)
					case f.K == KString:
						b.p("  out_str(%s);", e)
					case f.K == KBytes:
						b.p("  out_bytes(%s);", e)
					case f.K == KF32:
						b.p("  out_f32(%s);", e)
					case f.K == KF64:
						b.p("  out_f64(%s);", e)
					case f.K == KBool:
						b.p("  out_u(%s ? 1 : 0);", e)
					case f.K.Signed():
						b.p("  out_i(%s);", e)
					default:
						b.p("  out_u((uint64_t)%s);", e)
					}
				}
			}
			b.p("}")
		}
	}
	for _, s := range u.Structs {
		T := ty(s.Name)
		n := s.Name
		b.p("struct N_%s : Node { %s* o;", n, T)
		// the storage is dirtied first: a generated type must not depend on it
		b.p("  N_%s() { void* m = ::operator new(sizeof(%s)); memset(m, 0xA5, sizeof(%s)); o = new (m) %s; }", n, T, T, T)
		b.p("  Node* copy() override { N_%s* n = new N_%s; *n->o = *o; return n; }", n, n)
		b.p("  ~N_%s() override { o->~%s(); ::operator delete((void*)o); }", n, n)
		b.p("  void fill() override { ::fill(*o); } void dump() override { ::dump(*o); }")
		if v.Minimal {
			b.p("  void fillA() override {} void dumpA() override {}")
		} else {
			b.p("  void fillA() override { ::fillA(*o); } void dumpA() override { ::dumpA(*o); }")
		}
		b.p("  void accget(int k) override { switch (k) {")
		for k, a := range u.accs(s) {
			if a.A.Get != nil {
				b.p("  case %d: %s; break;", k, cOut(a.A.T, fmt.Sprintf("o->get_%s()", a.A.Name)))
			}
		}
		b.p("  default: out_u(0); } }")
		b.p("  void accset(int k) override { switch (k) {")
		for k, a := range u.accs(s) {
			if a.A.Set != nil {
				b.p("  case %d: o->set_%s(%s); break;", k, a.A.Name, cTok(a.A.T))
			}
		}
		b.p("  default: break; } }")
		b.p("  void info() override { typedef std::remove_reference_t<decltype(*o)> T; printf(\"ok %%d %%llu\\n\", (int)T::dynamic, (unsigned long long)T::size); }")
		b.p("  uint64_t encsize() override { return o->encode_size(); }")
		if v.Compat {
			b.p("  uint64_t enc(uint8_t* p, size_t, int) override { return o->encode((void*)p); }")
			b.p("  int64_t dec(const uint8_t* p, size_t, int) override { return o->decode((const void*)p); }")
			b.p("  static int64_t decsize(const uint8_t* p, size_t n, int) { return %s::decode_size((const void*)p, n); } };", T)
		} else {
			b.p("  uint64_t enc(uint8_t* p, size_t n, int api) override { return api ? o->encode((void*)p) : o->encode(std::span<uint8_t>(p, n)); }")
			b.p("  int64_t dec(const uint8_t* p, size_t n, int api) override { return api ? o->decode((const void*)p) : o->decode(std::span<const uint8_t>(p, n)); }")
			b.p("  static int64_t decsize(const uint8_t* p, size_t n, int api) { return api ? %s::decode_size((const void*)p, n) : %s::decode_size(std::span<const uint8_t>(p, n)); } };", T, T)
		}
	}
	b.p("struct Reg { Reg() {")
	for si, s := range u.Structs {
		b.p("  types()[%d] = {[]() -> Node* { return new N_%s; }, N_%s::decsize};", tidOf(vi, ui, si), s.Name, s.Name)
	}
	b.p("} } reg; }")
	return b.String()
}

const cppWorkerH = `#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <map>
#include <memory>
#include <new>
#include <string>
#ifndef __BYTES_TYPE
#define __BYTES_TYPE
struct bytes { ::std::shared_ptr<uint8_t[]> data; uint64_t length; };
#endif
struct Node { virtual ~Node() {} virtual Node* copy() = 0; virtual void fill() = 0; virtual void dump() = 0; virtual void fillA() = 0; virtual void dumpA() = 0;
  virtual void info() = 0; virtual uint64_t encsize() = 0; virtual uint64_t enc(uint8_t*, size_t, int) = 0; virtual int64_t dec(const uint8_t*, size_t, int) = 0; virtual void accget(int) = 0; virtual void accset(int) = 0; };
struct Type { Node* (*make)(); int64_t (*decsize)(const uint8_t*, size_t, int); };
std::map<int, Type>& types();
uint64_t tok_u(); int64_t tok_i(); float tok_f32(); double tok_f64(); std::string tok_str(); ::bytes tok_bytes();
void out_u(uint64_t v); void out_i(int64_t v); void out_f32(float v); void out_f64(double v); void out_str(const std::string& s); void out_bytes(const ::bytes& b);
`

const cppWorkerMain = `#include "worker.hpp"
#include <cstdio>
#include <exception>
std::map<int, Type>& types() { static std::map<int, Type> m; return m; }
static char* cur;
static char* tok() { while (*cur == ' ') cur++; char* s = cur; while (*cur && *cur != ' ') cur++; if (*cur) *cur++ = 0; return s; }
uint64_t tok_u() { return strtoull(tok(), 0, 10); }
int64_t tok_i() { return strtoll(tok(), 0, 10); }
float tok_f32() { uint32_t x = (uint32_t)strtoull(tok(), 0, 16); float f; memcpy(&f, &x, 4); return f; }
double tok_f64() { uint64_t x = strtoull(tok(), 0, 16); double f; memcpy(&f, &x, 8); return f; }
static int hx(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static std::string unhex(const char* s) { std::string r; for (size_t n = strlen(s) / 2, i = 0; i < n; i++) r.push_back((char)(hx(s[2*i]) * 16 + hx(s[2*i+1]))); return r; }
std::string tok_str() { return unhex(tok() + 1); }
::bytes tok_bytes() { std::string s = unhex(tok() + 1); ::bytes b; b.data = std::shared_ptr<uint8_t[]>(new uint8_t[s.size()]); memcpy(b.data.get(), s.data(), s.size()); b.length = s.size(); return b; }
static void hexout(const uint8_t* p, uint64_t n) { static const char d[] = "0123456789abcdef"; putchar('x'); for (uint64_t i = 0; i < n; i++) { putchar(d[p[i] >> 4]); putchar(d[p[i] & 15]); } }
void out_u(uint64_t v) { printf(" %llu", (unsigned long long)v); }
void out_i(int64_t v) { printf(" %lld", (long long)v); }
void out_f32(float v) { uint32_t x; memcpy(&x, &v, 4); if (v != v) printf(" nan"); else printf(" %x", x); }
void out_f64(double v) { uint64_t x; memcpy(&x, &v, 8); if (v != v) printf(" nan"); else printf(" %llx", (unsigned long long)x); }
void out_str(const std::string& s) { putchar(' '); hexout((const uint8_t*)s.data(), s.size()); }
void out_bytes(const ::bytes& b) { if (b.length == 0) { printf(" x"); return; } if (!b.data) { printf(" null"); return; } putchar(' '); hexout(b.data.get(), b.length); }
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*)) __attribute__((weak));
static long live, fail_at = -1, failed;
static void on_malloc(const volatile void* p, size_t) { if (p) live++; }
static void on_free(const volatile void* p) { if (p) live--; }
extern "C" void* __real__Znam(size_t); extern "C" void* __real__Znwm(size_t);
static bool no_mem() { if (fail_at > 0 && --fail_at == 0) { failed++; return true; } return false; }
extern "C" void* __wrap__Znam(size_t n) { if (no_mem()) throw std::bad_alloc(); return __real__Znam(n); }
extern "C" void* __wrap__Znwm(size_t n) { if (no_mem()) throw std::bad_alloc(); return __real__Znwm(n); }
// O TYPE API then (BUF OFF FAIL)...: an object decodes one frame after the other, is
// encoded, and goes; the answer is what each decode said and how many blocks are left.
#define NSLOT 64
static Node* slots[NSLOT];
static struct { uint8_t* p; size_t n; } bufs[NSLOT];
static void setbuf_(int b, const std::string& s) { bufs[b].p = (uint8_t*)malloc(s.size()); bufs[b].n = s.size(); memcpy(bufs[b].p, s.data(), s.size()); }
static void op_own(const Type& t, int api) {
  if (!__sanitizer_install_malloc_and_free_hooks) { printf("ok 0\n"); return; }
  static bool hooked; if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); try { throw std::bad_alloc(); } catch (const std::exception&) {} }
  static long long res[64]; static long fl[64]; int k = 0; long before = live;
  { Node* n = t.make();
    while (*cur && k < 64) { int b = tok_u(); size_t off = tok_u(); long f = tok_i(); failed = 0; t.decsize(bufs[b].p + off, bufs[b].n - off, api); t.decsize(bufs[b].p + off, (bufs[b].n - off) / 2, api); fail_at = f;
      try { res[k] = n->dec(bufs[b].p + off, bufs[b].n - off, api); fail_at = -1;
        if (res[k] > 0) { uint64_t m = n->encsize(); uint8_t* o = (uint8_t*)malloc(m); memset(o, 0, m); n->enc(o, m, api); free(o); }
      } catch (const std::bad_alloc&) { fail_at = -1; res[k] = -1000000000LL; }
      fl[k++] = failed; while (*cur == ' ') cur++; }
    delete n; }
  long left = live - before;
  printf("ok 1 %ld", left); for (int i = 0; i < k; i++) printf(" %lld %ld", res[i], fl[i]); putchar('\n');
}
` + cThreads + cppCall + `
int main() {
  char* line = 0; size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    line[strcspn(line, "\n")] = 0; cur = line;
    char op = tok()[0];
    try {
    if (op == 'B') { int b = tok_u(); free(bufs[b].p); bufs[b].p = 0; bufs[b].n = 0; char* h = tok(); if (h[0] == 'x') setbuf_(b, unhex(h + 1)); printf("ok\n"); }
    else if (op == 'M') { int b = tok_u(); size_t off = tok_u(); std::string s = unhex(tok() + 1); memcpy(bufs[b].p + off, s.data(), s.size()); printf("ok\n"); }
    else if (op == 'R') { int b = tok_u(); printf("ok "); hexout(bufs[b].p, bufs[b].n); putchar('\n'); }
    else if (op == 'T') t_run();
    else if (op == 'O') { const Type& t = types()[tok_u()]; int api = tok_u(); while (*cur == ' ') cur++; op_own(t, api); }
    else if (op == 'Z') { const Type& t = types()[tok_u()]; int b = tok_u(); size_t off = tok_u(); int api = tok_u(); printf("ok %lld\n", (long long)t.decsize(bufs[b].p + off, bufs[b].n - off, api)); }
    else {
      int s = tok_u();
      if (op == 'N') { delete slots[s]; slots[s] = types()[tok_u()].make(); printf("ok\n"); }
      else if (op == 'Y') { int d = tok_u(); delete slots[d]; slots[d] = slots[s]->copy(); printf("ok\n"); }
      else if (op == 'F') { slots[s]->fill(); printf("ok\n"); }
      else if (op == 'X') { slots[s]->fillA(); printf("ok\n"); }
      else if (op == 'P') { printf("ok"); slots[s]->dump(); putchar('\n'); }
      else if (op == 'G') { printf("ok"); slots[s]->dumpA(); putchar('\n'); }
      else if (op == 'I') { slots[s]->info(); }
      else if (op == 'S') { printf("ok %llu\n", (unsigned long long)slots[s]->encsize()); }
      else if (op == 'E') { int b = tok_u(); size_t off = tok_u(); int api = tok_u(); printf("ok %llu\n", (unsigned long long)slots[s]->enc(bufs[b].p + off, bufs[b].n - off, api)); }
      else if (op == 'A') { int b = tok_u(); int api = tok_u(); uint64_t n = slots[s]->encsize(); free(bufs[b].p); bufs[b].p = (uint8_t*)malloc(n); memset(bufs[b].p, 0, n); bufs[b].n = n; uint64_t r = slots[s]->enc(bufs[b].p, n, api); if (r < n) bufs[b].n = r; printf("ok %llu\n", (unsigned long long)r); }
      else if (op == 'D') { int b = tok_u(); size_t off = tok_u(); int api = tok_u(); printf("ok %lld\n", (long long)slots[s]->dec(bufs[b].p + off, bufs[b].n - off, api)); }
      else if (op == 'U') { printf("ok"); while (*cur) slots[s]->accget((int)tok_u()); putchar('\n'); }
      else if (op == 'V') { int k = (int)tok_u(); slots[s]->accset(k); printf("ok\n"); }
      else printf("ex badop\n");
    }
    } catch (const std::exception& e) { printf("ex %s\n", e.what()); }
    fflush(stdout);
  }
  return 0;
}
`
