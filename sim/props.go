package main

import "encoding/hex"

// ---- the properties decided by simulated codecs -------------------------------

var allLangs = []string{"c", "cpp", "go", "java", "cs", "py", "esm", "cjs", "kt"}

// fullCfg draws the features of a universe; most are on, some are left out so that
// others are exercised more densely.
func fullCfg(r *RNG) GenCfg {
	return GenCfg{
		Structs: 9, Dyn: r.P(85), Big: r.P(85), Odd: r.P(90), Consts: r.P(75), Voids: r.P(75), Embeds: r.P(80),
		Nested: r.P(85), Arrays: r.P(90), Floats: r.P(75), BigEnums: r.P(50), MaxArr: []int{3, 6, 9, 17}[r.N(4)], LongArr: 7,
	}
}

// apis lists the entry points of a variant a plan may draw from.
func apis(v *Variant) int {
	switch v.Lang {
	case "cpp":
		if !v.Compat {
			return 2
		}
	case "java", "kt":
		return 2
	case "cs", "py":
		return 3
	case "esm", "cjs":
		return 4
	}
	return 1
}

func (g *gen) api(t *typ) int { return g.N(apis(t.V)) }

// encApi draws an entry point for encoding.
func (g *gen) encApi(t *typ) int {
	switch t.V.Lang {
	case "cpp", "java", "cs":
		return g.N(apis(t.V))
	case "esm", "cjs":
		return g.N(4)
	}
	return 0
}

func codecProps() []*codecProp {
	return []*codecProp{
		{ID: "C01", Unis: 28, Eps: 6000, Per: 1, Langs: allLangs, Cfg: fullCfg, Gen: genLayout,
			Rule: "One node per target for a random struct; each is told a random value, its frame is compared with the documented layout and broadcast over a medium that loses, duplicates and reorders datagrams to the other targets, which must read the value and send it on unchanged."},
		{ID: "C02", Unis: 24, Eps: 3750, Per: 1, Langs: allLangs, Cfg: fullCfg, Gen: genStream,
			Rule: "Two to four nodes of different targets joined by byte streams (possibly through relays); the medium fragments, resets and the nodes crash; frames are cut out with decode_size alone."},
		{ID: "C03", Unis: 24, Eps: 6000, Per: 1, Langs: allLangs, Cfg: fullCfg, Gen: genPrefix,
			Rule: "decode_size is asked about every truncation of a frame (all for short frames, sampled for long ones) and about frames with bytes behind them, at random buffer offsets with random surroundings."},
		{ID: "C04", Unis: 24, Eps: 7500, Per: 1, Langs: allLangs, Cfg: fullCfg, Gen: genDamage,
			Rule: "Valid frames are damaged (bits flipped, bytes overwritten, cut, inserted, removed, length prefixes inflated) and handed to a node; between damaged ones it must still take valid ones."},
		{ID: "C05", Unis: 24, Eps: 7500, Per: 1, Langs: allLangs, Cfg: constCfg, Gen: genConstant,
			Rule: "Frames of structs with constants arrive with one to three bits flipped inside a constant, inside padding or inside data."},
		{ID: "C06", Unis: 24, Eps: 7500, Per: 1, Langs: allLangs, Cfg: fullCfg, Gen: genWindow,
			Rule: "Values are encoded into windows of larger, dirty buffers."},
		{ID: "C07", Unis: 24, Eps: 4500, Per: 1, Langs: allLangs, Cfg: fullCfg, Gen: genReuse,
			Rule: "One object per node takes a sequence of valid, damaged and constant-violating frames and field assignments."},
		{ID: "C08", Unis: 24, Eps: 6000, Per: 1, Langs: allLangs, Cfg: dynCfg, Allow: func(v *Variant) bool { return v.Copies() }, Gen: genHold,
			Rule: "An object is decoded and its receive buffer then overwritten, released or reused by later frames."},
		{ID: "C09", Unis: 12, Eps: 3000, Per: 2, Langs: []string{"c"}, Cfg: dynCfg, Allow: func(v *Variant) bool { return v.Memcpy }, Gen: genOom,
			Rule: "A frame is decoded while the k-th allocation fails, for every k up to one past the number of allocations."},
		{ID: "C10", Unis: 24, Eps: 4500, Per: 1, Langs: []string{"c", "cpp", "go", "java"}, Cfg: fullCfg, Allow: func(v *Variant) bool { return !v.Minimal }, Gen: genAccess,
			Rule: "Objects are filled and read through accessors and directly, in turns, with received frames in between."},
		{ID: "C11", Unis: 16, Eps: 3000, Per: 2, Langs: []string{"java", "cs", "kt"}, Cfg: fullCfg, Gen: genEqual,
			Rule: "Pairs of objects that reached their fields along different histories (assignment, decoding, decoding after damage) are compared."},
		{ID: "C12", Unis: 24, Eps: 3750, Per: 1, Langs: allLangs, Cfg: accCfg, Gen: genCustom,
			Rule: "One node per target for a struct whose fields have custom accessors drawn as random expressions; values arrive by assignment, by datagram and through custom setters, in any order with crashes, and every custom getter is compared with the expression's value."},
		{ID: "C13", Unis: 20, Eps: 4000, Per: 1, Langs: allLangs, Cfg: fullCfg, Threads: true, Gen: genThreads,
			Rule: "Two to six objects of one program are assigned, decoded into, encoded and read in turns, and now and then two to five calls on them (encode, decode, size probe, size) run at once, in threads that are switched inside the generated code where the seeded schedule says."},
		{ID: "C14", Unis: 24, Eps: 6000, Per: 2, Langs: []string{"c", "cpp", "go", "cs"}, Cfg: dynCfg, Allow: func(v *Variant) bool { return !v.Copies() }, Gen: genAlias,
			Rule: "An object is decoded without copying, in C while no memory is to be had, and what its strings and byte strings hold is then changed in the receive buffer, again and again."},
		{ID: "C15", Unis: 24, Eps: 6000, Per: 2, Langs: []string{"c", "cpp"}, Cfg: dynCfg, Allow: func(v *Variant) bool { return v.Lang != "c" || v.Memcpy }, Gen: genOwn,
			Rule: "Frames are decoded whole, with a constant damaged and while an allocation fails, and every block the decoder allocated is looked for: in C behind the pointers of the object, one each, in C++ nowhere once the object is gone."},
	}
}

func dynCfg(r *RNG) GenCfg {
	c := fullCfg(r)
	c.Dyn, c.Nested, c.Arrays = true, true, true
	c.MoreDyn = true
	return c
}

func constCfg(r *RNG) GenCfg {
	c := fullCfg(r)
	c.Consts, c.Voids = true, true
	c.MoreConst = true
	return c
}

// C01 ---------------------------------------------------------------------------

func genLayout(g *gen) *Episode {
	t := g.pick(nil)
	sib := g.siblings(t)
	for _, s := range sib {
		g.node(s)
	}
	src := g.N(len(sib))
	lossy := g.N(3)
	for round := 0; round < 2; round++ {
		v := g.val(t)
		for i := range sib {
			if round == 0 || i == src || g.P(30) {
				g.add(Step{Op: "set", N: i, V: v})
				g.add(Step{Op: "enc", N: i, Api: g.encApi(sib[i]), K: chkBytes | chkSize})
			}
		}
		if round == 0 {
			for i := range sib {
				if i != src {
					g.ep.Links = append(g.ep.Links, LinkSpec{A: src, B: i, Dgram: true, Off: g.N(3) * g.N(5), Api: g.api(sib[i])})
				}
			}
		}
		for l, ls := range g.ep.Links {
			g.add(Step{Op: "tx", N: src, L: l})
			m := 0
			if lossy > 0 && g.P(25) {
				m = 1
			}
			g.add(Step{Op: "dg", L: l, K: g.N(3), M: m, Post: g.N(4) * g.N(3), Fill: g.N(9)})
			if g.P(50) {
				g.add(Step{Op: "enc", N: ls.B, Api: g.encApi(sib[ls.B]), K: chkBytes | chkSize})
			}
		}
	}
	// what is left in the air
	for n := g.N(6); n > 0 && len(g.ep.Links) > 0; n-- {
		g.add(Step{Op: "dg", L: g.N(len(g.ep.Links)), K: g.N(3), M: g.N(3), Post: g.N(4), Fill: g.N(9)})
	}
	return g.ep
}

// C02 ---------------------------------------------------------------------------

func genStream(g *gen) *Episode {
	t := g.pick(nil)
	sib := g.siblings(t)
	n := g.Range(2, 4)
	for i := 0; i < n; i++ {
		g.node(sib[g.N(len(sib))])
	}
	// a chain: 0 -> 1 -> ... with relays, or a star from 0
	chain := g.P(60)
	for i := 1; i < n; i++ {
		l := LinkSpec{A: 0, B: i, Off: g.N(3) * g.N(9), Api: g.api(g.typeOf(i))}
		if chain {
			l.A = i - 1
			if i+1 < n {
				l.Fwd = i + 1
			}
		}
		g.ep.Links = append(g.ep.Links, l)
	}
	frag := []int{1, 3, 8, 40, 400}[g.N(5)]
	resets, crashes := g.N(12), g.N(8)
	msgs := g.Range(1, 6)
	size := len(t.U.Encode(t.S, t.U.genVal(t.S, NewRNG(1), valCfg{maxBlob: 20})).Bytes) + 8
	acts := msgs*(n-1)*min(14, 2+size/frag) + 6
	acts = min(acts, 120)
	sent := 0
	for i := 0; i < acts; i++ {
		switch c := g.N(100); {
		case sent < msgs && c < 18 || i == 0:
			g.add(Step{Op: "set", N: 0, V: g.val(t)})
			g.add(Step{Op: "enc", N: 0, Api: g.encApi(g.typeOf(0)), K: 0})
			for l, ls := range g.ep.Links {
				if ls.A == 0 {
					g.add(Step{Op: "tx", N: 0, L: l})
				}
			}
			sent++
		case c < 18+resets/2:
			g.add(Step{Op: "reset", L: g.N(len(g.ep.Links)), T: g.tick(200000)})
		case c < 18+resets/2+crashes/2:
			g.add(Step{Op: "crash", N: g.Range(1, n-1), T: g.tick(2000000)})
		default:
			g.add(Step{Op: "rx", L: g.N(len(g.ep.Links)), K: g.Range(1, frag)})
		}
	}
	g.add(Step{Op: "drain"})
	return g.ep
}

// C03 ---------------------------------------------------------------------------

func genPrefix(g *gen) *Episode {
	t := g.pick(nil)
	n := g.node(t)
	v := g.val(t)
	size := len(t.U.Encode(t.S, v).Bytes)
	pre := g.N(3) * g.N(7)
	step := func(k int) {
		g.add(Step{Op: "prefix", N: n, V: v, K: k, Pre: pre, Fill: g.N(9), Api: g.api(t)})
	}
	if size <= 48 {
		for k := 0; k <= size; k++ {
			step(k)
		}
	} else {
		for k := 0; k < 40; k++ {
			step(g.N(size + 1))
		}
		for k := 0; k < 6; k++ {
			step(size - k)
		}
	}
	for k := 0; k < 3; k++ {
		b := dirt(g.N(6), g.Range(1, 12))
		g.add(Step{Op: "prefix", N: n, V: v, K: size, Tail: hex.EncodeToString(b), Pre: pre, Fill: g.N(9), Api: g.api(t)})
	}
	return g.ep
}

// C04 ---------------------------------------------------------------------------

func (g *gen) muts(size int) []Mut {
	var out []Mut
	for n := 1 + g.N(2)*g.N(3); n > 0; n-- {
		pos := g.N(size + 1)
		switch g.N(8) {
		case 0, 1:
			out = append(out, Mut{Op: "xor", Pos: pos, Hex: hex.EncodeToString([]byte{1 << g.N(8)})})
		case 2:
			out = append(out, Mut{Op: "set", Pos: pos, Hex: hex.EncodeToString(dirt(g.N(9), g.Range(1, 3)))})
		case 3:
			out = append(out, Mut{Op: "trunc", Pos: pos})
		case 4:
			out = append(out, Mut{Op: "append", Hex: hex.EncodeToString(dirt(g.N(9), g.Range(1, 5)))})
		case 5:
			out = append(out, Mut{Op: "insert", Pos: pos, Hex: hex.EncodeToString(dirt(g.N(9), g.Range(1, 3)))})
		case 6:
			out = append(out, Mut{Op: "delete", Pos: pos, N: g.Range(1, 3)})
		case 7: // a length prefix that claims more than there is
			out = append(out, Mut{Op: "set", Pos: pos, Hex: hex.EncodeToString([][]byte{{0x7f}, {0xff, 0x01}, {0xff, 0xff, 0x03}, {0x80, 0x01}, {0x80}}[g.N(5)])})
		}
	}
	return out
}

// lenMut replaces a length prefix: by a longer form of the same number, by one a
// little off, by huge ones and by ones that never end.
func (g *gen) lenMut(f *Frame) []Mut {
	l := f.Lens[g.N(len(f.Lens))]
	n := uint64(0)
	for i := l[1] - 1; i >= 0; i-- {
		n = n<<7 | uint64(f.Bytes[l[0]+i]&0x7f)
	}
	size := 0
	switch g.N(6) {
	case 0: // longer than need be
		size = g.Range(l[1]+1, 5)
	case 1:
		n += uint64(g.Range(1, 3))
	case 2:
		n -= min(n, uint64(g.Range(1, 3)))
	case 3:
		n = []uint64{0x200000, 0xfffffff, 0x10000000, 0x7fffffff, 0x7ffffff0, 0x80000000, 0xffffffff, 0x100000000, n + 0x80000000, n + 0x100000000}[g.N(10)]
	case 4:
		n = []uint64{1 << 62, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - uint64(l[0]+1), n + 1<<63, 1 << 35, 1<<56 + n}[g.N(8)]
	case 5:
		size = g.Range(6, 12)
	}
	var b []byte
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n == 0 && len(b)+1 >= size {
			b = append(b, c)
			break
		}
		b = append(b, c|0x80)
	}
	return []Mut{{Op: "delete", Pos: l[0], N: l[1]}, {Op: "insert", Pos: l[0], Hex: hex.EncodeToString(b)}}
}

func genDamage(g *gen) *Episode {
	t := g.pick(nil)
	n := g.node(t)
	v := g.val(t)
	f := t.U.Encode(t.S, v)
	size := len(f.Bytes)
	pre := g.N(2) * g.N(7)
	for k := g.Range(4, 10); k > 0; k-- {
		m := g.muts(size)
		if len(f.Lens) > 0 && g.P(30) {
			m = g.lenMut(f)
		}
		g.add(Step{Op: "dec", N: n, V: v, Mut: m, Pre: pre, Fill: g.N(9), Api: g.api(t)})
		if g.P(30) {
			g.add(Step{Op: "dec", N: n, V: g.val(t), Pre: pre, Fill: g.N(9), Api: g.api(t)})
		}
	}
	g.add(Step{Op: "dec", N: n, V: g.val(t), Pre: pre, Fill: g.N(9), Api: g.api(t)})
	return g.ep
}

// C05 ---------------------------------------------------------------------------

func genConstant(g *gen) *Episode {
	t := g.pick(func(t *typ) bool { return hasConst(t.U, t.S) })
	if t == nil {
		return nil
	}
	n := g.node(t)
	v := g.val(t)
	f := t.U.Encode(t.S, v)
	pre := g.N(2) * g.N(5)
	g.add(Step{Op: "consts", N: n})
	for k := g.Range(4, 9); k > 0; k-- {
		var ms []Mut
		for c := 1 + g.N(2)*g.N(3); c > 0; c-- {
			bit := g.N(8 * len(f.Bytes))
			if g.P(75) && len(f.Const) > 0 {
				bit = f.Const[g.N(len(f.Const))]
			}
			ms = append(ms, Mut{Op: "xor", Pos: bit / 8, Hex: hex.EncodeToString([]byte{1 << (bit % 8)})})
		}
		g.add(Step{Op: "dec", N: n, V: v, Mut: ms, Pre: pre, Fill: g.N(9), Api: g.api(t)})
	}
	g.add(Step{Op: "dec", N: n, V: v, Pre: pre, Fill: g.N(9), Api: g.api(t)})
	g.add(Step{Op: "enc", N: n, K: chkBytes, Api: g.encApi(t)})
	g.add(Step{Op: "set", N: n, V: g.val(t)})
	g.add(Step{Op: "encw", N: n, K: chkBytes, Api: g.encApi(t), Fill: g.N(8)})
	return g.ep
}

func hasConst(u *Universe, s *Struct) bool {
	for _, f := range u.Leaves(s) {
		if f.FK == FConst || f.FK == FNormal && f.K == KStruct && hasConst(u, u.strct(f.Ref)) {
			return true
		}
	}
	return false
}

// C06 ---------------------------------------------------------------------------

func genWindow(g *gen) *Episode {
	t := g.pick(nil)
	n := g.node(t)
	for k := g.Range(2, 5); k > 0; k-- {
		if k == 1 || g.P(70) {
			g.add(Step{Op: "set", N: n, V: g.val(t)})
		} else {
			g.add(Step{Op: "dec", N: n, V: g.val(t), Api: g.api(t)})
		}
		for j := g.Range(1, 3); j > 0; j-- {
			s := Step{Op: "encw", N: n, K: chkSize | chkWindow, Api: g.encApi(t), Pre: g.N(2) * g.N(9), Post: g.N(2) * g.N(9), Fill: g.N(8)}
			g.add(s)
		}
		if g.P(40) {
			g.add(Step{Op: "enc", N: n, K: chkSize | chkBytes, Api: g.encApi(t)})
		}
	}
	return g.ep
}

// C07 ---------------------------------------------------------------------------

func genReuse(g *gen) *Episode {
	t := g.pick(nil)
	n := g.node(t)
	for k := g.Range(4, 9); k > 0; k-- {
		v := g.val(t)
		size := len(t.U.Encode(t.S, v).Bytes)
		switch g.N(6) {
		case 0:
			g.add(Step{Op: "set", N: n, V: v})
			g.add(Step{Op: "get", N: n})
		case 1, 2:
			g.add(Step{Op: "dec", N: n, V: v, Mut: g.muts(size), Fill: g.N(9), Api: g.api(t)})
		default:
			g.add(Step{Op: "dec", N: n, V: v, Pre: g.N(4), Fill: g.N(9), Api: g.api(t)})
			if g.P(40) {
				g.add(Step{Op: "enc", N: n, K: chkBytes, Api: g.encApi(t)})
			}
		}
	}
	g.add(Step{Op: "dec", N: n, V: g.val(t), Fill: g.N(9), Api: g.api(t)})
	g.add(Step{Op: "enc", N: n, K: chkBytes, Api: g.encApi(t)})
	return g.ep
}

// C08 ---------------------------------------------------------------------------

func genHold(g *gen) *Episode {
	t := g.pick(func(t *typ) bool { return t.U.dynamic(t.S) || g.index%10 == 0 })
	if t == nil {
		return nil
	}
	n := g.node(t)
	for k := g.Range(1, 4); k > 0; k-- {
		g.add(Step{Op: "hold", N: n, V: g.val(t), Pre: g.N(3), Post: g.N(4), Fill: g.N(8), Api: g.api(t), K: g.Range(1, 3), M: g.N(2), Lax: g.P(50)})
		if g.P(60) {
			g.add(Step{Op: "enc", N: n, K: chkBytes, Api: g.encApi(t)})
		}
		if g.P(40) {
			g.add(Step{Op: "get", N: n})
		}
	}
	return g.ep
}

// C14 ---------------------------------------------------------------------------

func genAlias(g *gen) *Episode {
	t := g.pick(func(t *typ) bool { return t.U.dynamic(t.S) })
	if t == nil {
		return nil
	}
	n := g.node(t)
	for k := g.Range(1, 4); k > 0; k-- {
		g.add(Step{Op: "alias", N: n, V: g.val(t), Pre: g.N(3), Post: g.N(4), Fill: g.N(250), Api: g.api(t), K: g.Range(1, 3)})
		if g.P(60) {
			g.add(Step{Op: "enc", N: n, K: chkBytes, Api: g.encApi(t)})
		}
		if g.P(40) {
			g.add(Step{Op: "get", N: n})
		}
		if g.P(20) {
			g.add(Step{Op: "dec", N: n, V: g.val(t), Api: g.api(t)})
		}
	}
	return g.ep
}

// C15 ---------------------------------------------------------------------------

func genOwn(g *gen) *Episode {
	t := g.pick(func(t *typ) bool { return t.U.dynamic(t.S) })
	if t == nil {
		return nil
	}
	n := g.node(t)
	a := max(1, t.U.blobs(t.S))
	for k := g.Range(2, 6); k > 0; k-- {
		s := Step{Op: "own", N: n, V: g.val(t), Pre: g.N(3), Fill: g.N(200), Api: g.api(t), Lax: g.P(50)}
		if g.P(50) {
			s.K, s.M = g.Range(1, 2*a+1), g.Range(0, 1)
		}
		if g.P(50) {
			if f := t.U.Encode(t.S, s.V); len(f.Const) > 0 {
				bit := f.Const[g.N(len(f.Const))]
				s.Mut = []Mut{{Op: "xor", Pos: bit / 8, Hex: hex.EncodeToString([]byte{1 << (bit % 8)})}}
			}
		}
		g.add(s)
		if g.P(20) {
			g.add(Step{Op: "dec", N: n, V: g.val(t), Api: g.api(t)})
		}
	}
	return g.ep
}

// C09 ---------------------------------------------------------------------------

func genOom(g *gen) *Episode {
	t := g.pick(func(t *typ) bool { return t.U.dynamic(t.S) })
	if t == nil {
		return nil
	}
	n := g.node(t)
	v := g.val(t)
	a := t.U.blobs(t.S)
	for k := 1; k <= min(a+1, 14); k++ {
		j := k
		if a > 13 && g.P(50) {
			j = g.Range(1, a+1)
		}
		g.add(Step{Op: "oom", N: n, V: v, K: j, M: g.Range(0, 1), Fill: g.Range(0, 9)})
		if g.P(30) {
			g.add(Step{Op: "dec", N: n, V: g.val(t)})
		}
	}
	g.add(Step{Op: "dec", N: n, V: v})
	return g.ep
}

// blobs counts the strings and byte strings of a struct.
func (u *Universe) blobs(s *Struct) int {
	n := 0
	for _, f := range u.normals(s) {
		switch f.K {
		case KString, KBytes:
			n += f.count()
		case KStruct:
			n += f.count() * u.blobs(u.strct(f.Ref))
		}
	}
	return n
}

// C10 ---------------------------------------------------------------------------

func genAccess(g *gen) *Episode {
	t := g.pick(nil)
	n := g.node(t)
	for k := g.Range(3, 7); k > 0; k-- {
		if g.P(70) {
			g.add(Step{Op: "set", N: n, V: g.val(t), Acc: g.P(60)})
		} else {
			g.add(Step{Op: "dec", N: n, V: g.val(t), Api: g.api(t)})
		}
		g.add(Step{Op: "get", N: n, Acc: g.P(60)})
		if g.P(50) {
			g.add(Step{Op: "enc", N: n, K: chkBytes, Api: g.encApi(t)})
		}
	}
	return g.ep
}

// C12 ---------------------------------------------------------------------------

func accCfg(r *RNG) GenCfg {
	c := fullCfg(r)
	c.Accs, c.Floats = true, true
	return c
}

// accVals replaces the values of fields with accessors by ones the expressions are
// defined for, mostly.
func (g *gen) accVals(t *typ) *Val {
	v := g.val(t)
	for i, f := range t.U.normals(t.S) {
		if len(f.Accs) > 0 && g.P(88) {
			v.L[i] = accVal(g.RNG, f.K, f.Bits)
		}
	}
	return v
}

func genCustom(g *gen) *Episode {
	t := g.pick(func(t *typ) bool { return len(t.U.accs(t.S)) > 0 })
	if t == nil {
		return nil
	}
	as := t.U.accs(t.S)
	sib := g.siblings(t)
	for _, s := range sib {
		g.node(s)
	}
	src := g.N(len(sib))
	for i := range sib {
		if i != src {
			g.ep.Links = append(g.ep.Links, LinkSpec{A: src, B: i, Dgram: true, Api: g.api(sib[i])})
		}
	}
	for k := g.Range(2, 4); k > 0; k-- {
		g.add(Step{Op: "set", N: src, V: g.accVals(t)})
		g.add(Step{Op: "cget", N: src})
		for j := g.Range(1, 3); j > 0; j-- {
			i := g.N(len(as))
			g.add(Step{Op: "cset", N: src, K: i, V: accVal(g.RNG, as[i].A.T, kindBits[as[i].A.T])})
		}
		g.add(Step{Op: "cget", N: src})
		g.add(Step{Op: "enc", N: src, K: chkBytes, Api: g.encApi(sib[src])})
		for l, ls := range g.ep.Links {
			g.add(Step{Op: "tx", N: src, L: l})
			g.add(Step{Op: "dg", L: l, K: g.N(3), M: g.N(2) * g.N(2), Fill: g.N(9)})
			g.add(Step{Op: "cget", N: ls.B})
			if g.P(70) {
				i := g.N(len(as))
				g.add(Step{Op: "cset", N: ls.B, K: i, V: accVal(g.RNG, as[i].A.T, kindBits[as[i].A.T])})
				g.add(Step{Op: "cget", N: ls.B})
				if g.P(40) {
					g.add(Step{Op: "enc", N: ls.B, Api: g.encApi(sib[ls.B]), K: chkBytes})
				}
			}
		}
		if g.P(15) {
			g.add(Step{Op: "crash", N: g.N(len(sib)), T: g.tick(200000)})
		}
	}
	return g.ep
}

// C11 ---------------------------------------------------------------------------

func genEqual(g *gen) *Episode {
	t := g.pick(nil)
	n := g.Range(2, 4)
	vals := []*Val{g.val(t), g.val(t)}
	vals = append(vals, g.tweak(t, vals[0]))
	for i := 0; i < n; i++ {
		g.node(t)
	}
	for k := g.Range(5, 12); k > 0; k-- {
		i := g.N(n)
		v := vals[g.N(len(vals))]
		switch g.N(4) {
		case 0:
			g.add(Step{Op: "set", N: i, V: v})
		case 1:
			g.add(Step{Op: "dec", N: i, V: v, Mut: g.muts(8), Api: g.api(t)})
			g.add(Step{Op: "dec", N: i, V: v, Api: g.api(t)})
		default:
			g.add(Step{Op: "dec", N: i, V: v, Api: g.api(t)})
		}
		g.add(Step{Op: "eq", N: g.N(n), M: g.N(n)})
	}
	return g.ep
}

// tweak changes one scalar of a value.
func (g *gen) tweak(t *typ, v *Val) *Val {
	c := cloneVal(v)
	var leaves []*Val
	var walk func(x *Val)
	walk = func(x *Val) {
		if len(x.L) == 0 {
			leaves = append(leaves, x)
		}
		for _, e := range x.L {
			walk(e)
		}
	}
	walk(c)
	var orig []*Val
	for _, l := range leaves {
		orig = append(orig, cloneVal(l))
	}
	o := g.val(t)
	var other []*Val
	walk = func(x *Val) {
		if len(x.L) == 0 {
			other = append(other, x)
		}
		for _, e := range x.L {
			walk(e)
		}
	}
	walk(o)
	if len(leaves) > 0 && len(other) == len(leaves) {
		i := g.N(len(leaves))
		*leaves[i] = *other[i]
		if g.P(40) { // as close as two values can be
			*leaves[i] = *cloneVal(orig[i])
			if n := len(leaves[i].B); n > 0 {
				leaves[i].B[g.N(n)] ^= 1
			} else {
				leaves[i].I ^= 1 << []int{0, 31, 63}[g.N(3)]
			}
		}
	}
	out, _, st, weird := t.U.Decode(t.S, t.U.Encode(t.S, c).Bytes)
	if st != dOK || len(weird) > 0 {
		return g.val(t)
	}
	return out
}

func cloneVal(v *Val) *Val {
	c := &Val{I: v.I, B: append([]byte{}, v.B...)}
	for _, e := range v.L {
		c.L = append(c.L, cloneVal(e))
	}
	return c
}

// C13 ---------------------------------------------------------------------------

func (g *gen) schedule(n int) []int {
	var out []int
	mode := g.N(4)
	for k := g.Range(2, 28); k > 0; k-- {
		p := 0
		switch mode {
		case 0: // fine
			p = g.Range(1, 4)
		case 1:
			p = g.Range(1, 30)
		case 2: // few switches, anywhere
			p = g.Range(1, []int{3, 20, 150, 600}[g.N(4)])
		case 3:
			p = []int{1, 2, 5, 12, 40, 130}[g.N(6)] + g.N(3)
		}
		out = append(out, g.N(n), p)
	}
	return out
}

func genThreads(g *gen) *Episode {
	g.small = true // a switch point may be anywhere: calls have to be short
	t := g.pick(nil)
	var same []*typ // what lives in the same program
	for _, o := range g.sorted() {
		if o.VI == t.VI && o.UI == t.UI {
			same = append(same, o)
		}
	}
	n := g.Range(2, 6)
	for i := 0; i < n; i++ {
		if i < 2 || g.P(60) {
			g.node(t)
		} else {
			g.node(same[g.N(len(same))])
		}
	}
	for i := 0; i < n; i++ {
		g.add(Step{Op: "set", N: i, V: g.val(g.typeOf(i))})
	}
	for k := g.Range(2, 5); k > 0; k-- {
		for j := g.N(4); j > 0; j-- {
			i := g.N(n)
			t := g.typeOf(i)
			switch g.N(4) {
			case 0:
				g.add(Step{Op: "set", N: i, V: g.val(t), Acc: hasAcc(t.V) && g.P(50)})
			case 1:
				g.add(Step{Op: "dec", N: i, V: g.val(t), Api: g.api(t)})
			case 2:
				g.add(Step{Op: "dec", N: i, V: g.val(t), Mut: g.muts(8), Api: g.api(t)})
			case 3:
				g.add(Step{Op: "encw", N: i, K: chkBytes | chkSize | chkWindow, Api: g.encApi(t), Fill: g.N(8)})
			}
		}
		for i := 0; i < n; i++ {
			if g.P(60) {
				g.add(Step{Op: "get", N: i})
			}
		}
		m := g.Range(2, 5)
		var cs []Call
		for j := 0; j < m; j++ {
			i := g.N(n)
			if j < n && g.P(70) {
				i = j
			}
			t := g.typeOf(i)
			c := Call{N: i, Pre: g.N(3) * g.N(3), Post: g.N(2) * g.N(5), Fill: g.N(8), Api: g.api(t)}
			switch g.N(10) {
			case 0:
				c.Op = "S"
				c.Pre, c.Api = 0, 0
			case 1:
				c.Op, c.V = "Z", g.val(t)
			case 2, 3, 4, 5:
				c.Op, c.V = "D", g.val(t)
				if j > 0 && g.P(30) {
					c.Share = 1 + g.N(j)
				}
			default:
				c.Op, c.Api = "E", g.encApi(t)
			}
			cs = append(cs, c)
		}
		g.add(Step{Op: "par", Par: cs, Seq: g.schedule(m)})
	}
	for i := 0; i < n; i++ {
		g.add(Step{Op: "get", N: i})
		g.add(Step{Op: "enc", N: i, K: chkBytes, Api: g.encApi(g.typeOf(i))})
	}
	return g.ep
}

// hasAcc tells whether objects can be set through accessors.
func hasAcc(v *Variant) bool {
	switch v.Lang {
	case "c", "cpp", "go", "java":
		return !v.Minimal
	}
	return false
}
