package main

import (
	"fmt"
	"strings"
)

// enumTable maps names to numbers: decoders hand out enum values by name.
func enumTable(e *Enum) string {
	var parts []string
	for _, v := range e.Vals {
		parts = append(parts, fmt.Sprintf("%s: %dn", v.Name, v.V))
	}
	return strings.Join(parts, ", ")
}

func jsMain(p *Pool) string {
	b := &src{}
	b.p("import { createRequire } from 'module'; import { readSync, writeSync } from 'fs';")
	b.p("const require = createRequire(import.meta.url);")
	b.p("const TYPES = {};")
	n := 0
	for vi, v := range p.Variants {
		if v.Lang != "esm" && v.Lang != "cjs" {
			continue
		}
		for ui, u := range p.Unis {
			if !p.uses(vi, ui) {
				continue
			}
			n++
			last := func(i int) string { q := u.Files[i].Pkg; return q[strings.LastIndexByte(q, '.')+1:] }
			switch {
			case v.Lang == "esm" && v.Single:
				b.p("import s%d from './esm/%s_u%d_single.js';", n, v.Name, ui)
			case v.Single:
				b.p("const r%d = require('./cjs/%s_u%d_single.js');", n, v.Name, ui)
			}
			for i, x := range u.Files {
				if x.Empty {
					continue
				}
				pk := u.pkg(v.Name, i)
				file := strings.ReplaceAll(pk, ".", "/")
				switch {
				case v.Lang == "esm" && v.Single:
					b.p("const m%d_%d = s%d.%s;", n, i, n, last(i))
				case v.Lang == "esm":
					b.p("import m%d_%d from './esm/%s.bb.js';", n, i, file)
				case v.Single:
					b.p("const m%d_%d = r%d.%s;", n, i, n, pk)
				default:
					b.p("const m%d_%d = require('./cjs/%s.bb.js').%s;", n, i, file, pk)
				}
			}
			b.p("{ const mods = {}, desc = {};")
			for _, e := range u.Enums {
				b.p("desc['%s'] = {%s};", e.Name, enumTable(e))
			}
			for _, s := range u.Structs {
				b.p("mods['%s'] = m%d_%d.%s;", s.Name, n, s.File, s.Name)
				var parts []string
				for _, f := range u.normals(s) {
					parts = append(parts, fmt.Sprintf("[%q,%d,%d,%q]", camel(f.Name), f.K, f.Len, f.Ref))
				}
				b.p("desc['%s'] = [%s];", s.Name, strings.Join(parts, ","))
			}
			for si, s := range u.Structs {
				var parts, consts []string
				for _, f := range u.consts(s) {
					consts = append(consts, fmt.Sprintf("[%q,%d]", camel(f.Name), f.K))
				}
				for _, a := range u.accs(s) {
					parts = append(parts, fmt.Sprintf("[%q,%d]", camel(a.A.Name), a.A.T))
				}
				b.p("TYPES[%d] = {n: '%s', mods, desc, compat: %v, accs: [%s], consts: [%s]};", tidOf(vi, ui, si), s.Name, v.Compat, strings.Join(parts, ","), strings.Join(consts, ","))
			}
			b.p("}")
		}
	}
	b.WriteString(jsRT)
	return b.String()
}

const jsRT = `
const KS = 11, KB = 12, KE = 13, KST = 14, KF32 = 9, KF64 = 10, KBOOL = 0, KU64 = 4, KI64 = 8;
const unhex = (h) => Uint8Array.from(Buffer.from(h, 'hex'));
const dv = new DataView(new ArrayBuffer(8));
function rd(t, k, compat) {
  const x = t.f[t.i++];
  if (k === KS) return Buffer.from(x.slice(1), 'hex').toString('utf8');
  if (k === KB) return compat ? Array.from(unhex(x.slice(1))) : unhex(x.slice(1));
  if (k === KF32) { dv.setUint32(0, parseInt(x, 16)); return dv.getFloat32(0); }
  if (k === KF64) { dv.setBigUint64(0, BigInt('0x' + x)); return dv.getFloat64(0); }
  if (k === KBOOL) return x !== '0';
  if (k === KU64 || k === KI64) return BigInt(x);
  // numbers no Number can hold exactly are passed as BigInt
  return Number.isSafeInteger(Number(x)) ? Number(x) : BigInt(x);
}
function fill(o, ty, name, t) {
  for (const [f, k, ln, ref] of ty.desc[name]) {
    if (ln) {
      if (k === KST) { for (let i = 0; i < ln; i++) fill(o[f][i], ty, ref, t); }
      else { const a = []; for (let i = 0; i < ln; i++) a.push(rd(t, k, ty.compat)); o[f] = a; }
    } else if (k === KST) fill(o[f], ty, ref, t);
    else o[f] = rd(t, k, ty.compat);
  }
}
function wr(w, v, k, en) {
  if (v === null || v === undefined) { w.push('null'); return; }
  switch (k) {
    case KS: w.push('x' + Buffer.from(v, 'utf8').toString('hex')); break;
    case KB: w.push('x' + Buffer.from(v).toString('hex')); break;
    case KF32: if (v !== v) w.push('nan'); else { dv.setFloat32(0, v); w.push(dv.getUint32(0).toString(16)); } break;
    case KF64: if (v !== v) w.push('nan'); else { dv.setFloat64(0, v); w.push(dv.getBigUint64(0).toString(16)); } break;
    case KBOOL: w.push(v ? '1' : '0'); break;
    case KE: if (typeof v === 'string') { w.push(en[v] === undefined ? 'badname' : String(en[v])); break; }
    default: w.push((Object.is(v, -0) ? 0 : v).toString());
  }
}
function dump(o, ty, name, w) {
  for (const [f, k, ln, ref] of ty.desc[name]) {
    const v = o[f];
    if (ln) { for (let i = 0; i < ln; i++) { if (k === KST) dump(v[i], ty, ref, w); else wr(w, v[i], k, ty.desc[ref]); } if (v.length !== ln) w.push('len' + v.length); }
    else if (k === KST) dump(v, ty, ref, w);
    else wr(w, v, k, ty.desc[ref]);
  }
}
const slots = [], bufs = [];
function go(line) {
  const t = { f: line.split(' '), i: 1 };
  const op = t.f[0], n = () => Number(t.f[t.i++]);
  switch (op) {
    case 'B': { const b = n(); const h = t.f[t.i++]; bufs[b] = h[0] === 'x' ? unhex(h.slice(1)) : null; return 'ok'; }
    case 'M': { const b = n(), off = n(); bufs[b].set(unhex(t.f[t.i++].slice(1)), off); return 'ok'; }
    case 'R': return 'ok x' + Buffer.from(bufs[n()]).toString('hex');
    case 'T': return together(t.f);
    case 'Z': { const ty = TYPES[n()], b = n(), off = n(), api = n(); const C = ty.mods[ty.n], d = win(ty, b, api);
      return 'ok ' + (api & 1 ? C.decode_size(d, off) : new C().decode_size(d, off)); }
  }
  const s = n();
  if (op === 'N') { const ty = TYPES[n()]; slots[s] = { o: new ty.mods[ty.n](), ty }; return 'ok'; }
  const { o, ty } = slots[s], C = ty.mods[ty.n];
  if (op === 'Y') { slots[n()] = { o: Object.create(Object.getPrototypeOf(o), Object.getOwnPropertyDescriptors(o)), ty }; return 'ok'; }
  switch (op) {
    case 'F': fill(o, ty, ty.n, t); return 'ok';
    case 'P': { const w = ['ok']; dump(o, ty, ty.n, w); return w.join(' '); }
    case 'W': { const w = ['ok']; for (const [f, k] of ty.consts) wr(w, o[f], k); return w.join(' '); }
    case 'U': { const w = ['ok']; while (t.i < t.f.length) { const [f, k] = ty.accs[n()]; wr(w, o[f], k); } return w.join(' '); }
    case 'V': { const [f, k] = ty.accs[n()]; o[f] = rd(t, k, ty.compat); return 'ok'; }
    case 'I': return 'ok ' + (o.constructor.dynamic() ? 1 : 0) + ' ' + o.constructor.size();
    case 'S': return 'ok ' + (o.encode_size());
    case 'E': { const b = n(), off = n(), api = n(); 
      if (ty.compat && !(api & 2)) { const a = Array.from(bufs[b]); const r = api & 1 ? C.encode(o, a, off) : o.encode(a, off); for (let i = 0; i < a.length; i++) if (!(a[i] >= 0 && a[i] <= 255)) return 'ex badbyte'; bufs[b] = Uint8Array.from(a); return 'ok ' + num(r); }
      return 'ok ' + num(api & 1 ? C.encode(o, bufs[b], off) : o.encode(bufs[b], off)); }
    case 'A': { const b = n(), api = n(); const r = api & 1 ? C.encode(o) : o.encode(); for (let i = 0; i < r.length; i++) if (r[i] !== undefined && !(r[i] >= 0 && r[i] <= 255)) return 'ex badbyte'; bufs[b] = Uint8Array.from(r, (x) => x || 0); return 'ok ' + r.length; }
    case 'D': { const b = n(), off = n(), api = n(); const d = win(ty, b, api); return 'ok ' + (api & 1 ? C.decode(o, d, off) : o.decode(d, off)); }
  }
  return 'ex badop';
}
` + jsThreads + `
function num(r) { return typeof r === 'object' ? r.length : r; }
function win(ty, b, api) { return ty.compat && !(api & 2) ? Array.from(bufs[b]) : bufs[b]; }
let acc = ''; const chunk = Buffer.alloc(65536);
function put(s) { const d = Buffer.from(s, 'latin1'); let o = 0; while (o < d.length) { try { o += writeSync(1, d, o); } catch (e) { if (e.code !== 'EAGAIN') throw e; } } }
for (;;) {
  let k; try { k = readSync(0, chunk, 0, chunk.length); } catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') break; throw e; }
  if (k === 0) break;
  acc += chunk.toString('latin1', 0, k);
  let i;
  while ((i = acc.indexOf('\n')) >= 0) {
    const line = acc.slice(0, i); acc = acc.slice(i + 1);
    let r; try { r = go(line); } catch (e) { r = 'ex ' + e.name; }
    put(r + '\n');
  }
}
`
