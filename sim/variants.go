package main

import "fmt"

// baseVariants covers every target with combinations of the options that reach the
// code generators; the unroll threshold is part of each combination because it
// selects a different code path for every array.
func baseVariants() []*Variant {
	return []*Variant{
		mkVariant("va", "c"),
		mkVariant("vb", "c", "-memcpy", "-unroll", "1", "-signext=arith", "-decnum"),
		mkVariant("vc", "c", "-unroll", "0", "-minimal", "-signext=shift", "-relpath"),
		mkVariant("vd", "c", "-single", "-memcpy", "-unroll", "2"),
		mkVariant("ve", "c", "-single", "-unroll", "-1", "-decnum", "-signext=arith", "-minimal"),

		mkVariant("vf", "cpp"),
		mkVariant("vg", "cpp", "-memcpy", "-unroll", "1", "-compat", "-signext=arith"),
		mkVariant("vh", "cpp", "-unroll", "0", "-decnum", "-signext=shift", "-relpath", "-memcpy"),
		mkVariant("vi", "cpp", "-single", "-unroll", "2", "-minimal", "-compat"),
		mkVariant("vj", "cpp", "-single", "-memcpy", "-unroll", "-1", "-decnum"),

		mkVariant("vk", "go"),
		mkVariant("vl", "go", "-memcpy", "-unroll", "1", "-signext=arith", "-decnum"),
		mkVariant("vm", "go", "-unroll", "0", "-minimal", "-signext=shift"),
		mkVariant("vn", "go", "-single", "-unroll", "-1", "-memcpy"),
		mkVariant("vo", "go", "-single", "-unroll", "2", "-decnum", "-signext=arith"),

		mkVariant("vp", "java"),
		mkVariant("vq", "java", "-unroll", "1", "-signext=arith", "-decnum"),
		mkVariant("vr", "java", "-unroll", "0", "-signext=shift", "-memcpy"),
		mkVariant("vs", "java", "-unroll", "-1", "-decnum"),

		mkVariant("vt", "cs"),
		mkVariant("vu", "cs", "-memcpy", "-unroll", "1", "-signext=arith"),
		mkVariant("vv", "cs", "-unroll", "0", "-decnum", "-signext=shift"),
		mkVariant("vw", "cs", "-single", "-memcpy", "-unroll", "2", "-decnum"),
		mkVariant("vx", "cs", "-single", "-unroll", "-1", "-signext=arith"),

		mkVariant("vy", "py"),
		mkVariant("vz", "py", "-unroll", "1", "-signext=arith", "-decnum"),
		mkVariant("wa", "py", "-unroll", "0", "-minimal", "-signext=shift", "-relpath"),
		mkVariant("wb", "py", "-single", "-unroll", "2", "-decnum", "-memcpy"),
		mkVariant("wc", "py", "-single", "-minimal", "-unroll", "-1", "-signext=arith"),

		mkVariant("wd", "esm"),
		mkVariant("we", "esm", "-compat", "-unroll", "1", "-signext=arith", "-decnum"),
		mkVariant("wf", "esm", "-unroll", "0", "-signext=shift", "-minimal"),
		mkVariant("wg", "esm", "-single", "-unroll", "2", "-compat"),
		mkVariant("wh", "esm", "-single", "-unroll", "-1", "-decnum", "-signext=arith"),

		mkVariant("wi", "cjs"),
		mkVariant("wj", "cjs", "-compat", "-unroll", "1", "-signext=arith", "-decnum"),
		mkVariant("wk", "cjs", "-unroll", "0", "-signext=shift", "-minimal"),
		mkVariant("wl", "cjs", "-single", "-unroll", "2", "-compat"),
		mkVariant("wm", "cjs", "-single", "-unroll", "-1", "-decnum", "-signext=arith"),

		mkVariant("wn", "kt"),
		mkVariant("wo", "kt", "-unroll", "1", "-signext=arith", "-decnum"),
		mkVariant("wp", "kt", "-unroll", "0", "-signext=shift"),
		mkVariant("wq", "kt", "-unroll", "-1", "-decnum", "-memcpy"),
	}
}

var langs = []string{"c", "cpp", "go", "java", "cs", "py", "esm", "cjs", "kt"}

// randomVariants draws one further combination per target.
func randomVariants(r *RNG, per int) []*Variant {
	var out []*Variant
	n := 0
	for _, l := range langs {
		for i := 0; i < per; i++ {
			var o []string
			if r.P(50) {
				o = append(o, "-memcpy")
			}
			if r.P(50) {
				o = append(o, "-decnum")
			}
			if r.P(35) && l != "java" && l != "kt" {
				o = append(o, "-single")
			}
			if r.P(35) && l != "java" && l != "cs" && l != "kt" {
				o = append(o, "-minimal")
			}
			if r.P(40) && l != "java" && l != "cs" && l != "go" && l != "py" && l != "c" && l != "kt" {
				o = append(o, "-compat")
			}
			if r.P(30) && (l == "c" || l == "cpp" || l == "py") {
				o = append(o, "-relpath")
			}
			if r.P(60) {
				o = append(o, []string{"-signext=arith", "-signext=shift"}[r.N(2)])
			}
			if r.P(80) {
				o = append(o, "-unroll", []string{"-1", "0", "1", "2", "3", "5", "6", "7", "9", "15"}[r.N(10)])
			}
			out = append(out, mkVariant(fmt.Sprintf("x%c%c", 'a'+n/26, 'a'+n%26), l, o...))
			n++
		}
	}
	return out
}
