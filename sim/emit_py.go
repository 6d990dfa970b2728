package main

import (
	"fmt"
	"strings"
)

// Python and JavaScript workers interpret a description of the fields; the code
// under test is the generated modules.

func pyDesc(u *Universe, v *Variant, s *Struct) string {
	var parts []string
	for _, f := range u.normals(s) {
		parts = append(parts, fmt.Sprintf("(%q,%d,%d,%q)", f.Name, f.K, f.Len, f.Ref))
	}
	return "[" + strings.Join(parts, ",") + "]"
}

func pyMain(p *Pool, lang string) string {
	b := &src{}
	b.p("import sys, struct, importlib, copy")
	b.p("sys.dont_write_bytecode = True")
	b.p("TYPES = {}")
	for vi, v := range p.Variants {
		if v.Lang != "py" {
			continue
		}
		for ui, u := range p.Unis {
			if !p.uses(vi, ui) {
				continue
			}
			for i, x := range u.Files {
				switch {
				case x.Empty:
				case v.Single:
					b.p("m%d = importlib.import_module('%s_u%d_single')", i, v.Name, ui)
				default:
					b.p("m%d = importlib.import_module('%s_bb')", i, u.pkg(v.Name, i))
				}
			}
			b.p("mods = {}")
			for _, e := range u.Enums {
				b.p("mods['%s'] = m%d.%s", e.Name, e.File, e.Name)
			}
			for _, s := range u.Structs {
				b.p("mods['%s'] = m%d.%s", s.Name, s.File, s.Name)
			}
			b.p("desc = {")
			for _, s := range u.Structs {
				b.p("  '%s': %s,", s.Name, pyDesc(u, v, s))
			}
			b.p("}")
			for si, s := range u.Structs {
				if as := u.accs(s); len(as) > 0 {
					var parts []string
					for _, a := range as {
						parts = append(parts, fmt.Sprintf("(%q,%d)", a.A.Name, a.A.T))
					}
					b.p("desc['%s', 1] = [%s]", s.Name, strings.Join(parts, ","))
				}
				b.p("TYPES[%d] = ('%s', mods, desc, %s)", tidOf(vi, ui, si), s.Name, pick(v.Minimal, "True", "False"))
			}
		}
	}
	b.WriteString(pyRT)
	return b.String()
}

func pick(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

const pyRT = `
KS, KB, KE, KST, KF32, KF64, KBOOL = 11, 12, 13, 14, 9, 10, 0
SIGNED = (5, 6, 7, 8)
def rd(t, k, ref, mods):
    x = next(t)
    if k == KS: return bytes.fromhex(x[1:]).decode('utf-8')
    if k == KB: return bytes.fromhex(x[1:])
    if k == KE: return mods[ref](int(x))
    if k == KF32: return struct.unpack('<f', struct.pack('<I', int(x, 16)))[0]
    if k == KF64: return struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
    if k == KBOOL: return x != '0'
    return int(x)
def fill(o, name, mods, desc, raw, t):
    for f, k, ln, ref in desc[name]:
        a = '_' + f if raw else f
        if ln:
            if k == KST:
                for e in getattr(o, a): fill(e, ref, mods, desc, raw, t)
            else:
                setattr(o, a, [rd(t, k, ref, mods) for _ in range(ln)])
        elif k == KST:
            fill(getattr(o, a), ref, mods, desc, raw, t)
        else:
            setattr(o, a, rd(t, k, ref, mods))
def wr(w, v, k):
    if v is None: w.append('null')
    elif k == KS: w.append('x' + v.encode('utf-8').hex())
    elif k == KB: w.append('x' + bytes(v).hex())
    elif k == KE: w.append(str(v.value))
    elif k == KF32:
        if v != v: w.append('nan')
        else: w.append('%x' % struct.unpack('<I', struct.pack('<f', v))[0])
    elif k == KF64:
        if v != v: w.append('nan')
        else: w.append('%x' % struct.unpack('<Q', struct.pack('<d', v))[0])
    elif k == KBOOL: w.append('1' if v else '0')
    else: w.append(str(v))
def dump(o, name, mods, desc, raw, w):
    for f, k, ln, ref in desc[name]:
        v = getattr(o, '_' + f if raw else f)
        for e in (v if ln else [v]):
            if k == KST: dump(e, ref, mods, desc, raw, w)
            else: wr(w, e, k)
        if ln and len(v) != ln: w.append('len%d' % len(v))
slots = [None] * 64
bufs = [None] * 64
def num(r):
    if isinstance(r, tuple):
        return '%d %d' % (1 if r[0] else 0, r[1])
    return str(r)
def go(line):
    t = iter(line.split())
    op = next(t)
    if op == 'B':
        b = int(next(t)); h = next(t)
        bufs[b] = bytearray(bytes.fromhex(h[1:])) if h[0] == 'x' else None
        return 'ok'
    if op == 'M':
        b = int(next(t)); off = int(next(t)); x = bytes.fromhex(next(t)[1:])
        bufs[b][off:off + len(x)] = x
        return 'ok'
    if op == 'R': return 'ok x' + bytes(bufs[int(next(t))]).hex()
    if op == 'T': return together(t)
    if op == 'Z':
        n, mods, desc, raw = TYPES[int(next(t))]
        b = int(next(t)); off = int(next(t)); api = int(next(t))
        return 'ok %d' % mods[n]().decode_size(win(bufs[b], off, api))
    s = int(next(t))
    if op == 'N':
        ty = TYPES[int(next(t))]
        slots[s] = (ty[1][ty[0]](),) + ty
        return 'ok'
    o, n, mods, desc, raw = slots[s]
    if op == 'Y': slots[int(next(t))] = (copy.copy(o),) + slots[s][1:]; return 'ok'
    if op == 'F': fill(o, n, mods, desc, raw, t); return 'ok'
    if op == 'P': w = ['ok']; dump(o, n, mods, desc, raw, w); return ' '.join(w)
    if op == 'U':
        w = ['ok']
        for i in t:
            a, k = desc[n, 1][int(i)]
            wr(w, getattr(o, a), k)
        return ' '.join(w)
    if op == 'V':
        a, k = desc[n, 1][int(next(t))]
        setattr(o, a, rd(t, k, '', mods))
        return 'ok'
    if op == 'I': return 'ok %d %d' % (type(o).dynamic(), type(o).size())
    if op == 'S': return 'ok %d' % o.encode_size()
    if op == 'E':
        b = int(next(t)); off = int(next(t)); api = int(next(t))
        if off == 0 and api == 1: return 'ok %d' % o.encode(bufs[b])
        m = memoryview(bufs[b])
        try: return 'ok %d' % o.encode(m[off:])
        finally: m.release()
    if op == 'A': bufs[int(next(t))] = bytearray(r := o.encode()); return 'ok %d' % len(r)
    if op == 'D':
        b = int(next(t)); off = int(next(t)); api = int(next(t))
        ok, r = o.decode(win(bufs[b], off, api))
        return 'ok %d' % (r if ok else (r if r < 0 else -1000 - r))
    return 'ex badop'
def win(b, off, api):
    if api == 0: return b[off:]
    if api == 1: return bytes(b[off:])
    return memoryview(b)[off:]
` + pyThreads + `
def main():
    w = sys.stdout
    for line in sys.stdin:
        try: r = go(line)
        except Exception as e: r = 'ex ' + type(e).__name__
        w.write(r + '\n'); w.flush()
main()
`
