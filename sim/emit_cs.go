package main

import (
	"fmt"
	"strings"
)

var csType = []string{"bool", "byte", "ushort", "uint", "ulong", "sbyte", "short", "int", "long", "float", "double"}

func csNS(p string) string {
	parts := strings.Split(p, ".")
	for i := range parts {
		parts[i] = pascal(parts[i])
	}
	return strings.Join(parts, ".")
}

func csGlue(u *Universe, v *Variant, vi, ui int) string {
	b := &src{}
	b.p("using System; using System.Collections.Generic;")
	b.p("static class Glue%d_%d {", vi, ui)
	ty := func(n string) string { return "global::" + u.csNS(v.Name, u.fileOf(n)) + "." + n }
	for _, s := range u.Structs {
		T := ty(s.Name)
		b.p("public static void fill(%s o, Tok t) {", T)
		for _, f := range u.normals(s) {
			F := pascal(f.Name)
			get := ""
			switch {
			case f.K == KString:
				get = "t.str()"
			case f.K == KBytes:
				get = "t.bytes()"
			case f.K == KEnum:
				get = fmt.Sprintf("(%s)t.u()", ty(f.Ref))
			case f.K == KF32:
				get = "t.f32()"
			case f.K == KF64:
				get = "t.f64()"
			case f.K == KBool:
				get = "t.u() != 0"
			case f.K.Signed():
				get = fmt.Sprintf("(%s)t.sg()", csType[f.K])
			case f.K != KStruct:
				get = fmt.Sprintf("(%s)t.u()", csType[f.K])
			}
			switch {
			case f.K == KStruct && f.Len > 0:
				b.p("  for (int i = 0; i < %d; i++) fill(o.%s[i], t);", f.Len, F)
			case f.K == KStruct:
				b.p("  fill(o.%s, t);", F)
			case f.Len > 0:
				b.p("  for (int i = 0; i < %d; i++) o.%s[i] = %s;", f.Len, F, get)
			default:
				b.p("  o.%s = %s;", F, get)
			}
		}
		b.p("}")
		b.p("public static void dump(%s o, Out w) {", T)
		for _, f := range u.normals(s) {
			e := "o." + pascal(f.Name)
			if f.Len > 0 {
				e += "[i]"
				b.p("  for (int i = 0; i < %d; i++)", f.Len)
			}
			switch {
			case f.K == KStruct:
				b.p("  dump(%s, w);", e)
			case f.K == KString:
				b.p("  w.str(%s);", e)
			case f.K == KBytes && v.Memcpy:
				b.p("  w.bytes(%s);", e)
			case f.K == KBytes:
				b.p("  w.bytes(%s.ToArray());", e)
			case f.K == KF32:
				b.p("  w.f32(%s);", e)
			case f.K == KF64:
				b.p("  w.f64(%s);", e)
			case f.K == KBool:
				b.p("  w.u(%s ? 1UL : 0UL);", e)
			case f.K.Signed():
				b.p("  w.i((long)%s);", e)
			default:
				b.p("  w.u((ulong)%s);", e)
			}
		}
		b.p("}")
		b.p("sealed class N_%s : Node { %s o = new %s();", s.Name, T, T)
		b.p("  public override void fill(Tok t) { Glue%d_%d.fill(o, t); } public override void dump(Out w) { Glue%d_%d.dump(o, w); }", vi, ui, vi, ui)
		b.p("  public override string info() { return \"ok \" + (%s.Dynamic ? 1 : 0) + \" \" + %s.Size; }", T, T)
		b.p("  public override int encsize() { return o.EncodeSize(); } public override byte[] alloc() { return o.Encode(); }")
		if v.Memcpy {
			b.p("  public override int enc(byte[] b, int off, int api) { return o.Encode(b, off); }")
			b.p("  public override int dec(byte[] b, int off, int api) { return api == 1 && off == 0 ? o.Decode(b) : o.Decode(b, off); }")
			b.p("  public override int decsize(byte[] b, int off, int api) { return api == 1 && off == 0 ? o.DecodeSize(b) : o.DecodeSize(b, off); }")
		} else {
			b.p("  public override int enc(byte[] b, int off, int api) { return api == 0 ? o.Encode(b, off) : api == 1 ? o.Encode(b.AsMemory(off)) : o.Encode(b.AsSpan(off)); }")
			b.p("  public override int dec(byte[] b, int off, int api) { return api == 0 ? o.Decode(b, off) : o.Decode(b.AsMemory(off)); }")
			b.p("  public override int decsize(byte[] b, int off, int api) { return api == 0 ? o.DecodeSize(b, off) : o.DecodeSize(b.AsMemory(off)); }")
		}
		b.p("  public override void accget(int k, Out w) { switch (k) {")
		for k, a := range u.accs(s) {
			if a.A.Get != nil {
				b.p("  case %d: %s; break;", k, csOut(a.A.T, "o."+pascal(a.A.Name)))
			}
		}
		b.p("  } }")
		b.p("  public override void accset(int k, Tok t) { switch (k) {")
		for k, a := range u.accs(s) {
			if a.A.Set != nil {
				b.p("  case %d: %s; break;", k, fmt.Sprintf("o.%s = %s", pascal(a.A.Name), csTok(a.A.T)))
			}
		}
		b.p("  } }")
		b.p("  public override void consts(Out w) {")
		for _, f := range u.consts(s) {
			b.p("    %s;", csOut(f.K, T+"."+pascal(f.Name)))
		}
		b.p("  }")
		b.p("  public override object obj() { return o; } public override void put(object x) { o = (%s)typeof(object).GetMethod(\"MemberwiseClone\", System.Reflection.BindingFlags.NonPublic | System.Reflection.BindingFlags.Instance).Invoke(x, null); } }", T)
	}
	b.p("public static void reg(Dictionary<int, Func<Node>> m) {")
	for si, s := range u.Structs {
		b.p("  m[%d] = () => new N_%s();", tidOf(vi, ui, si), s.Name)
	}
	b.p("} }")
	return b.String()
}

func csTok(k Kind) string {
	switch {
	case k == KF32:
		return "t.f32()"
	case k == KF64:
		return "t.f64()"
	case k == KBool:
		return "t.u() != 0"
	case k.Signed():
		return fmt.Sprintf("(%s)t.sg()", csType[k])
	}
	return fmt.Sprintf("(%s)t.u()", csType[k])
}

func csOut(k Kind, e string) string {
	switch {
	case k == KF32:
		return fmt.Sprintf("w.f32(%s)", e)
	case k == KF64:
		return fmt.Sprintf("w.f64(%s)", e)
	case k == KBool:
		return fmt.Sprintf("w.u(%s ? 1UL : 0UL)", e)
	case k.Signed():
		return fmt.Sprintf("w.i((long)%s)", e)
	}
	return fmt.Sprintf("w.u((ulong)%s)", e)
}

const csMain = `using System; using System.Collections.Generic; using System.IO; using System.Text;
abstract class Node { public abstract void fill(Tok t); public abstract void dump(Out w); public abstract string info(); public abstract int encsize(); public abstract byte[] alloc(); public abstract int enc(byte[] b, int off, int api); public abstract int dec(byte[] b, int off, int api); public abstract int decsize(byte[] b, int off, int api); public abstract object obj(); public abstract void put(object x); public abstract void consts(Out w); public abstract void accget(int k, Out w); public abstract void accset(int k, Tok t); }
static class Hx { public static byte[] un(string s) { return Convert.FromHexString(s); } public static string to(byte[] b) { return "x" + Convert.ToHexString(b).ToLowerInvariant(); } }
class Tok { string[] f; int i; public Tok(string l) { f = l.Split(' '); } public bool more() { return i < f.Length; } public string next() { return f[i++]; } public ulong u() { return ulong.Parse(next()); } public long sg() { return long.Parse(next()); }
  public float f32() { return BitConverter.UInt32BitsToSingle(Convert.ToUInt32(next(), 16)); } public double f64() { return BitConverter.UInt64BitsToDouble(Convert.ToUInt64(next(), 16)); }
  public byte[] bytes() { return Hx.un(next().Substring(1)); } public string str() { return Encoding.UTF8.GetString(bytes()); } }
class Out { public StringBuilder w = new StringBuilder(); public void raw(string s) { w.Append(' ').Append(s); } public void u(ulong v) { raw(v.ToString()); } public void i(long v) { raw(v.ToString()); }
  public void f32(float v) { if (float.IsNaN(v)) raw("nan"); else raw(BitConverter.SingleToUInt32Bits(v).ToString("x")); } public void f64(double v) { if (double.IsNaN(v)) raw("nan"); else raw(BitConverter.DoubleToUInt64Bits(v).ToString("x")); }
  public void bytes(byte[] b) { raw(b == null ? "null" : Hx.to(b)); } public void str(string s) { if (s == null) raw("null"); else bytes(Encoding.UTF8.GetBytes(s)); } }
static class Program {
  static Node[] slots = new Node[64]; static byte[][] bufs = new byte[64][]; static Dictionary<int, Func<Node>> types = new Dictionary<int, Func<Node>>();
  static string go(string line) {
    Tok t = new Tok(line); char op = t.next()[0]; int s, b, off, api;
    switch (op) {
      case 'B': { b = (int)t.u(); string h = t.next(); bufs[b] = h[0] == 'x' ? Hx.un(h.Substring(1)) : null; return "ok"; }
      case 'M': { b = (int)t.u(); off = (int)t.u(); byte[] x = t.bytes(); Array.Copy(x, 0, bufs[b], off, x.Length); return "ok"; }
      case 'R': return "ok " + Hx.to(bufs[(int)t.u()]);
      case 'Z': { Node n = types[(int)t.u()](); b = (int)t.u(); off = (int)t.u(); api = (int)t.u(); return "ok " + n.decsize(bufs[b], off, api); }
    }
    if (op == 'T') {
      var sched = new long[2 * (int)t.u()]; for (int i = 0; i < sched.Length; i++) sched[i] = (long)t.u();
      var calls = new Func<long>[(int)t.u()];
      for (int i = 0; i < calls.Length; i++) { char o = t.next()[0]; int a = (int)t.u(), bb = (int)t.u(), of = (int)t.u(), ap = (int)t.u();
        calls[i] = o == 'E' ? () => slots[a].enc(bufs[bb], of, ap) : o == 'D' ? () => slots[a].dec(bufs[bb], of, ap) : o == 'S' ? () => slots[a].encsize() : () => types[a]().decsize(bufs[bb], of, ap); }
      return SimY.Y.run(sched, calls);
    }
    s = (int)t.u();
    switch (op) {
      case 'N': slots[s] = types[(int)t.u()](); return "ok";
      case 'Y': { int d = (int)t.u(); slots[d] = types[(int)t.u()](); slots[d].put(slots[s].obj()); return "ok"; }
      case 'F': slots[s].fill(t); return "ok";
      case 'P': { Out w = new Out(); slots[s].dump(w); return "ok" + w.w; }
      case 'I': return slots[s].info();
      case 'S': return "ok " + slots[s].encsize();
      case 'E': b = (int)t.u(); off = (int)t.u(); api = (int)t.u(); return "ok " + slots[s].enc(bufs[b], off, api);
      case 'A': b = (int)t.u(); bufs[b] = slots[s].alloc(); return "ok " + bufs[b].Length;
      case 'D': b = (int)t.u(); off = (int)t.u(); api = (int)t.u(); return "ok " + slots[s].dec(bufs[b], off, api);
      case 'W': { Out w = new Out(); slots[s].consts(w); return "ok" + w.w; }
      case 'U': { Out w = new Out(); while (t.more()) slots[s].accget((int)t.u(), w); return "ok" + w.w; }
      case 'V': { int k = (int)t.u(); slots[s].accset(k, t); return "ok"; }
      case 'Q': { object x = slots[s].obj(), y = slots[(int)t.u()].obj(); return "ok " + (x.Equals(y) ? 1 : 0) + (y.Equals(x) ? 1 : 0) + (x.GetHashCode() == y.GetHashCode() ? 1 : 0); }
    }
    return "ex badop";
  }
  static void Main() {
    REG
    var si = new StreamReader(Console.OpenStandardInput(), new UTF8Encoding(false)); var so = new StreamWriter(Console.OpenStandardOutput(), new UTF8Encoding(false)); so.AutoFlush = false;
    for (string l; (l = si.ReadLine()) != null; ) { string r; try { r = go(l); } catch (Exception e) { r = "ex " + e.GetType().Name; } so.Write(r + "\n"); so.Flush(); }
  }
}
`
