package main

import (
	"fmt"
	"math"
)

var javaType = []string{"boolean", "byte", "short", "int", "long", "byte", "short", "int", "long", "float", "double"}

func javaGlue(u *Universe, v *Variant, vi, ui int) string {
	b := &src{}
	b.p("final class Glue%d_%d {", vi, ui)
	ty := func(n string) string { return u.javaPkg(v.Name, u.fileOf(n)) + "." + n }
	for _, s := range u.Structs {
		T := ty(s.Name)
		b.p("static void fill(%s o, Tok t) {", T)
		for _, f := range u.normals(s) {
			F := pascal(f.Name)
			get := ""
			switch {
			case f.K == KString:
				get = "t.str()"
			case f.K == KBytes:
				get = "t.bytes()"
			case f.K == KEnum:
				get = javaEnumArg(u.enum(f.Ref), ty(f.Ref))
			case f.K == KF32:
				get = "t.f32()"
			case f.K == KF64:
				get = "t.f64()"
			case f.K == KBool:
				get = "t.u() != 0"
			case f.K.Signed():
				get = fmt.Sprintf("(%s)t.i()", javaType[f.K])
			case f.K != KStruct:
				get = fmt.Sprintf("(%s)t.u()", javaType[f.K])
			}
			switch {
			case f.K == KStruct && f.Len > 0:
				b.p("  for (int i = 0; i < %d; i++) { if (o.get%s()[i] == null) o.set%sAt(i, new %s()); fill(o.get%s()[i], t); }", f.Len, F, F, ty(f.Ref), F)
			case f.K == KStruct:
				b.p("  fill(o.get%s(), t);", F)
			case f.Len > 0:
				b.p("  for (int i = 0; i < %d; i++) o.get%s()[i] = %s;", f.Len, F, get)
			default:
				b.p("  o.set%s(%s);", F, get)
			}
		}
		b.p("}")
		b.p("static void fillA(%s o, Tok t) {", T)
		for _, f := range u.normals(s) {
			F := pascal(f.Name)
			get := ""
			switch {
			case f.K == KString:
				get = "t.str()"
			case f.K == KBytes:
				get = "t.bytes()"
			case f.K == KEnum:
				get = fmt.Sprintf("%s.forNumber((short)t.u())", ty(f.Ref))
				if u.enum(f.Ref).Bits > 15 {
					get = javaEnumArg(u.enum(f.Ref), ty(f.Ref))
				}
			case f.K == KF32:
				get = "t.f32()"
			case f.K == KF64:
				get = "t.f64()"
			case f.K == KBool:
				get = "t.u() != 0"
			case f.K.Signed():
				get = fmt.Sprintf("(%s)t.i()", javaType[f.K])
			case f.K != KStruct:
				get = fmt.Sprintf("(%s)t.u()", javaType[f.K])
			}
			switch {
			case f.K == KStruct && f.Len > 0:
				b.p("  for (int i = 0; i < %d; i++) { %s x = new %s(); fillA(x, t); o.set%sAt(i, x); }", f.Len, ty(f.Ref), ty(f.Ref), F)
			case f.K == KStruct:
				b.p("  { %s x = new %s(); fillA(x, t); o.set%s(x); }", ty(f.Ref), ty(f.Ref), F)
			case f.Len > 0:
				b.p("  for (int i = 0; i < %d; i++) o.set%sAt(i, %s);", f.Len, F, get)
			default:
				b.p("  o.set%s(%s);", F, get)
			}
		}
		b.p("}")
		for _, acc := range []bool{false, true} {
			sfx := ""
			if acc {
				sfx = "A"
			}
			b.p("static void dump%s(%s o, Out w) {", sfx, T)
			for _, f := range u.normals(s) {
				F := pascal(f.Name)
				e := fmt.Sprintf("o.get%s()", F)
				if f.Len > 0 {
					if acc {
						e = fmt.Sprintf("o.get%sAt(i)", F)
					} else {
						e += "[i]"
					}
					b.p("  for (int i = 0; i < %d; i++)", f.Len)
				}
				switch {
				case f.K == KStruct:
					b.p("  dump%s(%s, w);", sfx, e)
				case f.K == KString:
					b.p("  w.str(%s);", e)
				case f.K == KBytes:
					b.p("  w.bytes(%s);", e)
				case f.K == KEnum:
					b.p("  if (%s == null) w.raw(\"null\"); else w.u(%s.getNumber());", e, e)
				case f.K == KF32:
					b.p("  w.f32(%s);", e)
				case f.K == KF64:
					b.p("  w.f64(%s);", e)
				case f.K == KBool:
					b.p("  w.u(%s ? 1 : 0);", e)
				case f.K == KU8:
					b.p("  w.u(%s & 0xff);", e)
				case f.K == KU16:
					b.p("  w.u(%s & 0xffff);", e)
				case f.K == KU32:
					b.p("  w.u(%s & 0xffffffffL);", e)
				case f.K == KU64:
					b.p("  w.u(%s);", e)
				default:
					b.p("  w.i(%s);", e)
				}
			}
			b.p("}")
		}
		b.p("static final class N_%s extends Node { %s o = new %s();", s.Name, T, T)
		b.p("  void fill(Tok t) { Glue%d_%d.fill(o, t); } void dump(Out w) { Glue%d_%d.dump(o, w); }", vi, ui, vi, ui)
		b.p("  void fillA(Tok t) { Glue%d_%d.fillA(o, t); } void dumpA(Out w) { Glue%d_%d.dumpA(o, w); }", vi, ui, vi, ui)
		b.p("  String info() { return \"ok \" + (%s.dynamic() ? 1 : 0) + \" \" + %s.size(); }", T, T)
		b.p("  int encsize() { return o.encodeSize(); } byte[] alloc() { return o.encode(); } int enc(byte[] b, int off) { return o.encode(b, off); }")
		b.p("  int dec(byte[] b, int off, int api) { return api == 1 && off == 0 ? o.decode(b) : o.decode(b, off); }")
		b.p("  int decsize(byte[] b, int off, int api) { return api == 1 && off == 0 ? o.decodeSize(b) : o.decodeSize(b, off); }")
		b.p("  void accget(int k, Out w) { switch (k) {")
		for k, a := range u.accs(s) {
			if a.A.Get != nil {
				b.p("  case %d: %s; break;", k, javaOut(a.A.T, fmt.Sprintf("o.get%s()", pascal(a.A.Name))))
			}
		}
		b.p("  } }")
		b.p("  void accset(int k, Tok t) { switch (k) {")
		for k, a := range u.accs(s) {
			if a.A.Set != nil {
				b.p("  case %d: %s; break;", k, fmt.Sprintf("o.set%s(%s)", pascal(a.A.Name), javaTok(a.A.T)))
			}
		}
		b.p("  } }")
		b.p("  Object obj() { return o; } }")
	}
	b.p("static void reg(java.util.Map<Integer, java.util.function.Supplier<Node>> m) {")
	for si, s := range u.Structs {
		b.p("  m.put(%d, N_%s::new);", tidOf(vi, ui, si), s.Name)
	}
	b.p("} }")
	return b.String()
}

const javaRT = `
abstract class Node { abstract void fill(Tok t); abstract void dump(Out w); abstract void fillA(Tok t); abstract void dumpA(Out w);
  abstract String info(); abstract int encsize(); abstract byte[] alloc(); abstract int enc(byte[] b, int off); abstract int dec(byte[] b, int off, int api); abstract int decsize(byte[] b, int off, int api); abstract Object obj();
  // put takes over the fields of another object as they are
  void put(Object x) { try { for (java.lang.reflect.Field f : x.getClass().getDeclaredFields()) if ((f.getModifiers() & java.lang.reflect.Modifier.STATIC) == 0) { f.setAccessible(true); f.set(obj(), f.get(x)); } } catch (ReflectiveOperationException e) { throw new RuntimeException(e); } }
  abstract void accget(int k, Out w); abstract void accset(int k, Tok t); }
final class Hex { static byte[] un(String s) { int n = s.length() / 2; byte[] b = new byte[n]; for (int i = 0; i < n; i++) b[i] = (byte)(Character.digit(s.charAt(2*i), 16) * 16 + Character.digit(s.charAt(2*i+1), 16)); return b; }
  static void to(StringBuilder w, byte[] b) { w.append('x'); for (byte x : b) { w.append(Character.forDigit(x >> 4 & 15, 16)); w.append(Character.forDigit(x & 15, 16)); } } }
final class Tok { String[] f; int i; Tok(String l) { f = l.split(" "); } String next() { return f[i++]; }
  long u() { return Long.parseUnsignedLong(next()); } long i() { return Long.parseLong(next()); }
  float f32() { return Float.intBitsToFloat(Integer.parseUnsignedInt(next(), 16)); } double f64() { return Double.longBitsToDouble(Long.parseUnsignedLong(next(), 16)); }
  byte[] bytes() { return Hex.un(next().substring(1)); } String str() { return new String(bytes(), java.nio.charset.StandardCharsets.UTF_8); } }
final class Out { StringBuilder w = new StringBuilder(); void raw(String s) { w.append(' ').append(s); } void u(long v) { raw(Long.toUnsignedString(v)); } void i(long v) { raw(Long.toString(v)); }
  void f32(float v) { if (v != v) raw("nan"); else raw(Integer.toHexString(Float.floatToRawIntBits(v))); } void f64(double v) { if (v != v) raw("nan"); else raw(Long.toHexString(Double.doubleToRawLongBits(v))); }
  void bytes(byte[] b) { if (b == null) { raw("null"); return; } w.append(' '); Hex.to(w, b); } void str(String s) { if (s == null) { raw("null"); return; } bytes(s.getBytes(java.nio.charset.StandardCharsets.UTF_8)); } }
`

const javaMain = `
final class Main {
  static Node[] slots = new Node[64]; static byte[][] bufs = new byte[64][]; static java.util.Map<Integer, java.util.function.Supplier<Node>> types = new java.util.HashMap<>();
  static String go(String line) {
    Tok t = new Tok(line); char op = t.next().charAt(0); int s, b, off, api;
    switch (op) {
      case 'B': b = (int)t.u(); { String h = t.next(); bufs[b] = h.charAt(0) == 'x' ? Hex.un(h.substring(1)) : null; } return "ok";
      case 'M': b = (int)t.u(); off = (int)t.u(); { byte[] x = t.bytes(); System.arraycopy(x, 0, bufs[b], off, x.length); } return "ok";
      case 'R': { StringBuilder w = new StringBuilder("ok "); Hex.to(w, bufs[(int)t.u()]); return w.toString(); }
      case 'Z': { Node n = types.get((int)t.u()).get(); b = (int)t.u(); off = (int)t.u(); api = (int)t.u(); return "ok " + n.decsize(bufs[b], off, api); }
    }
    if (op == 'T') {
      long[] sched = new long[2 * (int)t.u()]; for (int i = 0; i < sched.length; i++) sched[i] = t.u();
      java.util.function.LongSupplier[] calls = new java.util.function.LongSupplier[(int)t.u()];
      for (int i = 0; i < calls.length; i++) { char o = t.next().charAt(0); int a = (int)t.u(), bb = (int)t.u(), of = (int)t.u(), ap = (int)t.u();
        calls[i] = o == 'E' ? () -> slots[a].enc(bufs[bb], of) : o == 'D' ? () -> slots[a].dec(bufs[bb], of, ap) : o == 'S' ? () -> slots[a].encsize() : () -> types.get(a).get().decsize(bufs[bb], of, ap); }
      return simy.Y.run(sched, calls);
    }
    s = (int)t.u();
    switch (op) {
      case 'N': slots[s] = types.get((int)t.u()).get(); return "ok";
      case 'Y': { int d = (int)t.u(); slots[d] = types.get((int)t.u()).get(); slots[d].put(slots[s].obj()); return "ok"; }
      case 'F': slots[s].fill(t); return "ok";
      case 'X': slots[s].fillA(t); return "ok";
      case 'P': { Out w = new Out(); slots[s].dump(w); return "ok" + w.w; }
      case 'G': { Out w = new Out(); slots[s].dumpA(w); return "ok" + w.w; }
      case 'I': return slots[s].info();
      case 'S': return "ok " + slots[s].encsize();
      case 'E': b = (int)t.u(); off = (int)t.u(); return "ok " + slots[s].enc(bufs[b], off);
      case 'A': b = (int)t.u(); bufs[b] = slots[s].alloc(); return "ok " + bufs[b].length;
      case 'D': b = (int)t.u(); off = (int)t.u(); api = (int)t.u(); return "ok " + slots[s].dec(bufs[b], off, api);
      case 'U': { Out w = new Out(); while (t.i < t.f.length) slots[s].accget((int)t.u(), w); return "ok" + w.w; }
      case 'V': { int k = (int)t.u(); slots[s].accset(k, t); return "ok"; }
      case 'Q': { Object x = slots[s].obj(), y = slots[(int)t.u()].obj(); return "ok " + (x.equals(y) ? 1 : 0) + (y.equals(x) ? 1 : 0) + (x.hashCode() == y.hashCode() ? 1 : 0); }
    }
    return "ex badop";
  }
  public static void main(String[] a) throws Exception {
    REG
    java.io.BufferedReader in = new java.io.BufferedReader(new java.io.InputStreamReader(System.in, "UTF-8"));
    java.io.PrintStream out = new java.io.PrintStream(new java.io.FileOutputStream(java.io.FileDescriptor.out), false, "UTF-8");
    for (String l; (l = in.readLine()) != null; ) {
      String r; try { r = go(l); } catch (Throwable e) { r = "ex " + e.getClass().getSimpleName(); }
      out.print(r + "\n"); out.flush();
    }
  }
}
`

func javaTok(k Kind) string {
	switch {
	case k == KF32:
		return "t.f32()"
	case k == KF64:
		return "t.f64()"
	case k == KBool:
		return "t.u() != 0"
	case k.Signed():
		return fmt.Sprintf("(%s)t.i()", javaType[k])
	}
	return fmt.Sprintf("(%s)t.u()", javaType[k])
}

func javaOut(k Kind, e string) string {
	switch k {
	case KF32:
		return fmt.Sprintf("w.f32(%s)", e)
	case KF64:
		return fmt.Sprintf("w.f64(%s)", e)
	case KBool:
		return fmt.Sprintf("w.u(%s ? 1 : 0)", e)
	case KU8:
		return fmt.Sprintf("w.u(%s & 0xff)", e)
	case KU16:
		return fmt.Sprintf("w.u(%s & 0xffff)", e)
	case KU32:
		return fmt.Sprintf("w.u(%s & 0xffffffffL)", e)
	case KU64:
		return fmt.Sprintf("w.u(%s)", e)
	}
	return fmt.Sprintf("w.i(%s)", e)
}

// javaEnumArg reads a value of the enum; numbers beyond int are long.
func javaEnumArg(e *Enum, ty string) string {
	if e.Bits > 32 || e.max() > math.MaxInt32 {
		return ty + ".forNumber(t.u())"
	}
	return ty + ".forNumber((int)t.u())"
}
