package main

import (
	"bytes"
	"fmt"
)

// survey prints what tables.go records: which results an instance makes anew
// for every caller, and which instances follow the history they were given.
// It was run on the tree the properties were written for; checks never run it.
func survey() {
	for i := range inds {
		name := inds[i].name
		for _, a := range accOf(name) {
			ok := true
			for _, d := range []Data{{Seed: 1, N: 60, Kind: 1, Step: 3600}, {Seed: 2, N: 60, Kind: 3, Step: 3600}, {Seed: 2, N: 9, Kind: 3, Step: 3600}, {Seed: 2, N: 60, Kind: 3, Step: 3600, Flg: flgStill | flgNoVol}} {
				for _, src := range []string{"item", "ohlc"} {
					var p []int
					if src == "ohlc" {
						if inds[i].mko == nil {
							continue
						}
						p = inds[i].lo
					}
					for _, b := range accOf(name) {
						bad := protect(func() {
							in := d.input()
							want := flatten(read(makeInd(name, p, src, in), b, in))
							x := makeInd(name, p, src, in)
							early := read(x, b, in)
							v := read(x, a, in)
							for k := 0; k < 6; k++ {
								growAll(v, k)
							}
							scribbleAll(v)
							late := read(x, b, in)
							if !bytes.Equal(flatten(early), want) || !bytes.Equal(flatten(late), want) {
								ok = false
							}
						})
						if bad != "" {
							fmt.Println("// panic", name, a, b, d.N, bad)
						}
					}
				}
			}
			if ok {
				fmt.Printf("anew %s.%s\n", name, a)
			}
		}
	}
	for i := range inds {
		name := inds[i].name
		for _, src := range []string{"item", "ohlc"} {
			if src == "ohlc" && inds[i].mko == nil {
				continue
			}
			for _, a := range accOf(name) {
				ok, old := true, true
				for _, pq := range [][2]Data{
					{{Seed: 1, N: 59, Kind: 1, Step: 3600}, {Seed: 1, N: 60, Kind: 1, Step: 3600}},
					{{Seed: 1, N: 3, Kind: 1, Step: 3600}, {Seed: 1, N: 60, Kind: 1, Step: 3600}},
					{{Seed: 2, N: 60, Kind: 1, Step: 3600}, {Seed: 2, N: 60, Kind: 1, Step: 3600, Twk: 60}},
					{{Seed: 2, N: 60, Kind: 1, Step: 3600}, {Seed: 2, N: 60, Kind: 1, Step: 3600, Twk: 30}},
				} {
					for _, p := range [][]int{nil, inds[i].lo} {
						if src == "ohlc" && p == nil {
							continue
						}
						bad := protect(func() {
							in := pq[0].input()
							x := makeInd(name, p, src, in)
							calc(x)
							was := flatten(read(x, a, in))
							in.become(pq[1])
							calc(x)
							got := flatten(read(x, a, in))
							fresh := pq[1].input()
							if !bytes.Equal(got, flatten(read(makeInd(name, p, src, fresh), a, fresh))) {
								ok = false
							}
							if !bytes.Equal(got, was) {
								old = false
							}
						})
						if bad != "" {
							fmt.Println("// panic", name, src, a, bad)
							ok = false
						}
					}
				}
				switch {
				case ok:
					fmt.Printf("follows %s.%s.%s\n", name, src, a)
				case old:
					fmt.Printf("keeps %s.%s.%s\n", name, src, a)
				default:
					fmt.Printf("mixed %s.%s.%s\n", name, src, a)
				}
			}
		}
	}
}
