package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// smoke: every struct through every variant, once (development aid).
func smoke(p *Pool) {
	sh := newShard(p)
	defer sh.close()
	t0 := time.Now()
	n, bad := 0, map[string]int{}
	for vi, v := range p.Variants {
		for ui, u := range p.Unis {
			if !p.uses(vi, ui) {
				continue
			}
			for si, s := range u.Structs {
				r := NewRNG(seedOf(ui, si))
				for k := 0; k < 3; k++ {
					val := u.genVal(s, r, valCfg{maxBlob: 40, long: k == 2})
					fr := u.Encode(s, val)
					n++
					fail := func(what string) {
						bad[v.Lang]++
						if bad[v.Lang] <= 4 {
							fmt.Printf("BAD %s %v u%d %s: %s\n", v.Lang, v.Opts, ui, s.Name, what)
							fmt.Println("   val ", u.tokenString(s, val))
							fmt.Printf("   ref  %x\n", fr.Bytes)
						}
					}
					do := func(c string) string {
						r, err := sh.do(v, c)
						if err != nil {
							r = err.Error()
						}
						return r
					}
					do(fmt.Sprintf("N 0 %d", tidOf(vi, ui, si)))
					if x := do("F 0 " + u.tokenString(s, val)); x != "ok" {
						fail("fill: " + x)
						continue
					}
					x := do("A 0 0 0")
					y := do("R 0")
					if y != fmt.Sprintf("ok x%x", fr.Bytes) {
						fail("enc: " + x + " " + y)
						continue
					}
					if z := do(fmt.Sprintf("Z %d 0 0 0", tidOf(vi, ui, si))); z != fmt.Sprint("ok ", len(fr.Bytes)) {
						fail("decsize: " + z)
						continue
					}
					if z := do("S 0"); z != fmt.Sprint("ok ", len(fr.Bytes)) {
						fail("encsize: " + z)
					}
					do(fmt.Sprintf("N 1 %d", tidOf(vi, ui, si)))
					x = do("D 1 0 0 0")
					y = do("P 1")
					if x != fmt.Sprint("ok ", len(fr.Bytes)) || strings.TrimSpace(strings.TrimPrefix(y, "ok")) != u.tokenString(s, u.expected(s, val)) {
						fail("dec: " + x + " " + y + "\n   want " + u.tokenString(s, u.expected(s, val)))
					}
				}
			}
		}
	}
	fmt.Println("smoke", n, "cases", bad, time.Since(t0), "steps", sh.steps)
	_ = os.Stdout
}
