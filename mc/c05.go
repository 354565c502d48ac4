package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/sassoftware/go-rpmutils"
)

// refVercmp is rpm's rpmvercmp (rpmio/rpmvercmp.c, 4.15 and later), transcribed.
func refVercmp(a, b string) int {
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	alpha := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	alnum := func(c byte) bool { return digit(c) || alpha(c) }
	if a == b {
		return 0
	}
	one, two := a, b
	for one != "" || two != "" {
		for one != "" && !alnum(one[0]) && one[0] != '~' && one[0] != '^' {
			one = one[1:]
		}
		for two != "" && !alnum(two[0]) && two[0] != '~' && two[0] != '^' {
			two = two[1:]
		}
		// tilde sorts before everything
		t1, t2 := one != "" && one[0] == '~', two != "" && two[0] == '~'
		if t1 || t2 {
			if !t1 {
				return 1
			}
			if !t2 {
				return -1
			}
			one, two = one[1:], two[1:]
			continue
		}
		// caret: like tilde, except that the end of the string sorts before it
		c1, c2 := one != "" && one[0] == '^', two != "" && two[0] == '^'
		if c1 || c2 {
			if one == "" {
				return -1
			}
			if two == "" {
				return 1
			}
			if !c1 {
				return 1
			}
			if !c2 {
				return -1
			}
			one, two = one[1:], two[1:]
			continue
		}
		if one == "" || two == "" {
			break
		}
		class := alpha
		isnum := false
		if digit(one[0]) {
			class = digit
			isnum = true
		}
		i, j := 0, 0
		for i < len(one) && class(one[i]) {
			i++
		}
		for j < len(two) && class(two[j]) {
			j++
		}
		if i == 0 {
			return -1
		}
		if j == 0 {
			if isnum {
				return 1
			}
			return -1
		}
		s1, s2 := one[:i], two[:j]
		one, two = one[i:], two[j:]
		if isnum {
			s1 = strings.TrimLeft(s1, "0")
			s2 = strings.TrimLeft(s2, "0")
			if len(s1) > len(s2) {
				return 1
			}
			if len(s2) > len(s1) {
				return -1
			}
		}
		if c := strings.Compare(s1, s2); c != 0 {
			return c
		}
	}
	if one == "" && two == "" {
		return 0
	}
	if one != "" {
		return 1
	}
	return -1
}

// words lists all strings over the alphabet up to a length.
func words(alphabet []string, max int) []string {
	out := []string{""}
	level := out
	for i := 0; i < max; i++ {
		var next []string
		for _, w := range level {
			for _, a := range alphabet {
				next = append(next, w+a)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func safeVercmp(a, b string) (r int) { return rpmutils.Vercmp(a, b) }

func checkVer(x *X, a, b string) int {
	got := safeVercmp(a, b)
	x.Step()
	if want := refVercmp(a, b); got != want {
		x.Fail("Vercmp(%q, %q) = %d, rpm says %d", a, b, got, want)
	}
	x.Validated()
	return got
}

func pairPart(name, desc string, ws []string) *Part {
	return &Part{
		Name: name, Desc: fmt.Sprintf("every ordered pair of the %d strings: %s", len(ws), desc),
		Run: func(x *X) {
			a := ws[x.Choose(len(ws))]
			x.State(a)
			var c [3]int
			for _, b := range ws {
				c[checkVer(x, a, b)+1]++
			}
			x.Outcome(c[0], c[1], c[2])
			x.Logf("Vercmp(%q, each of %d): %d less, %d equal, %d greater", a, len(ws), c[0], c[1], c[2])
		},
	}
}

// bytesPart: every byte value in every kind of neighbourhood.
func bytesPart() *Part {
	return &Part{
		Name: "bytes", Desc: "every pair of byte values in four neighbourhoods each: alone, between digits, after a letter, before a digit",
		Run: func(x *X) {
			ctx := func(c, k int) string {
				b := string([]byte{byte(c)})
				return []string{b, "1" + b + "1", "a" + b, b + "1"}[k]
			}
			a, k := x.Choose(256), x.Choose(4)
			x.State(a, k)
			for b := 0; b < 256; b++ {
				for kb := 0; kb < 4; kb++ {
					checkVer(x, ctx(a, k), ctx(b, kb))
				}
			}
		},
	}
}

// runsPart: long strings that share a prefix and differ at the end.
func runsPart(tier string) *Part {
	lens := []int{1, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}
	if tier == "thorough" {
		lens = append(lens, 511, 512, 513, 1023, 1024, 1025, 4096, 65536)
	}
	units := []string{"1", "0", "a", "1.", "a1", "~", "^", "-", "é"}
	suf := words([]string{"0", "1", "a", "~"}, 2)
	if tier == "thorough" {
		suf = words([]string{"0", "1", "9", "a", "z", ".", "~", "^"}, 2)
	}
	return &Part{
		Name: "long-strings", Desc: fmt.Sprintf("strings repeating one of %q up to a length from %v, followed by any two of %d short suffixes; the second string's prefix is of the same length or one byte shorter (quick tier: units of two bytes only to 129)", units, lens, len(suf)),
		Run: func(x *X) {
			u := units[x.Choose(len(units))]
			n := lens[x.Choose(len(lens))]
			if n > 129 && tier != "thorough" && len(u) > 1 {
				return // every segment costs a scan of the rest
			}
			p := strings.Repeat(u, n/len(u)+1)
			pb := p[:n-x.Choose(2)]
			p = p[:n]
			sa := suf[x.Choose(len(suf))]
			x.State(u, n, sa, len(pb))
			for _, sb := range suf {
				got := rpmutils.Vercmp(p+sa, pb+sb)
				x.Step()
				if want := refVercmp(p+sa, pb+sb); got != want {
					x.Fail("Vercmp of %d bytes of %q... + %q and %d bytes + %q = %d, rpm says %d", n, u, sa, len(pb), sb, got, want)
				}
			}
			x.Validated()
		},
	}
}

func bigNumbers() []*big.Int {
	var out []*big.Int
	seen := map[string]bool{}
	add := func(b *big.Int) {
		for _, d := range []int64{-1, 0, 1} {
			v := new(big.Int).Add(b, big.NewInt(d))
			if !seen[v.String()] {
				seen[v.String()] = true
				out = append(out, v)
			}
		}
	}
	for k := int64(0); k <= 40; k++ {
		add(new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil))
	}
	for _, j := range []uint{7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128, 129} {
		add(new(big.Int).Lsh(big.NewInt(1), j))
	}
	return out
}

var verTokens = []string{
	"1", "01", "10", "9", "18446744073709551616", "99999999999999999999999999999999999999",
	"00000000000000000000000000000000000001", "a", "B", "z", "rc", ".", "-", "_", "+", "~", "^",
	"\n", "é", "\xff", "\x00", "٣", " ",
}

func init() {
	register(&Prop{
		ID:          "C05",
		Bits32:      func(string) bool { return true },
		Assumptions: []string{"the oracle is a transcription of rpm's rpmvercmp (4.15 and later, with the caret)"},
		Parts: func(tier string) []*Part {
			sym := []string{"0", "1", "a", "B", ".", "~", "^"}
			n, tn := 4, 2
			if tier == "thorough" {
				n, tn = 5, 3
			}
			// transitivity follows from equality with the reference on all pairs; the
			// reference's own order is checked on all triples of short strings
			small := words(sym, 2)
			evr := []string{"0", "1", "2", "10", "01", "1~a", "1^a", "a", "", "1.0", "1.1"}
			sortAlpha := []string{"1", "01", "1~", "1^", "2", "a", "", "1.0"}
			sortLen := 5
			if tier == "thorough" {
				sortLen = 6
			}
			return []*Part{
				pairPart("short-strings", fmt.Sprintf("all strings over %q of length <= %d", strings.Join(sym, ""), n), words(sym, n)),
				pairPart("tokens", fmt.Sprintf("all sequences of <= %d of %d tokens with digit runs beyond 64 bits, non-ASCII bytes, NUL, newline and separators", tn, len(verTokens)), words(verTokens, tn)),
				bytesPart(),
				runsPart(tier),
				{
					Name: "numbers", Desc: "every pair of 10^k-1, 10^k, 10^k+1 and 2^j-1, 2^j, 2^j+1 for k to 40 and 14 values of j to 129, with 0, 1 or 3 leading zeros, compared as numbers by big-integer arithmetic",
					Run: func(x *X) {
						nums := bigNumbers()
						a := nums[x.Choose(len(nums))]
						za := strings.Repeat("0", []int{0, 1, 3}[x.Choose(3)])
						x.State(za + a.String())
						for _, b := range nums {
							for _, zb := range []string{"", "0", "000"} {
								got := rpmutils.Vercmp("v"+za+a.String()+".x", "v"+zb+b.String()+".x")
								x.Step()
								if got != a.Cmp(b) {
									x.Fail("Vercmp of numbers %s%s and %s%s = %d", za, a, zb, b, got)
								}
								if ea, eb := za+a.String(), zb+b.String(); rpmutils.NEVRAcmp(rpmutils.NEVRA{Epoch: ea, Version: "2"}, rpmutils.NEVRA{Epoch: eb, Version: "2"}) != a.Cmp(b) {
									x.Fail("NEVRAcmp of epochs %s and %s is not their numeric order", ea, eb)
								}
							}
						}
						x.Validated()
					},
				},
				{
					Name: "big-slices", Desc: "slices of 12, 13, 50, 51, 300 and 5000 elements (around the sort algorithm's internal cut-overs): rising, falling, sawtooth, organ pipe, all equal, two values, three pseudo-random orders, with duplicates; as VersionSlice, as NEVRASlice and by sort.Sort and sort.Stable",
					Run: func(x *X) {
						n := []int{12, 13, 50, 51, 300, 5000}[x.Choose(6)]
						shape := x.Choose(9)
						v := make([]string, n)
						seed := uint32(12345 + shape)
						for i := range v {
							k := i
							switch shape {
							case 1:
								k = n - i
							case 2:
								k = i % 7
							case 3:
								k = min(i, n-i)
							case 4:
								k = 1
							case 5:
								k = i & 1
							case 6, 7, 8:
								seed = seed*1664525 + 1013904223
								k = int(seed>>8) % (n/2 + 1)
							}
							v[i] = fmt.Sprintf("%d.%s%d", k/10, []string{"", "~", "^", "a", "0"}[k%5], k%10)
						}
						x.State(n, shape)
						vs := rpmutils.VersionSlice(append([]string{}, v...))
						sort.Sort(vs)
						checkSorted(x, v, vs)
						vs = append(vs[:0], v...)
						sort.Stable(vs)
						checkSorted(x, v, vs)
						for f := 0; f < 3; f++ {
							var ns rpmutils.NEVRASlice
							for i, s := range v {
								nv := rpmutils.NEVRA{Name: strconv.Itoa(n - i), Epoch: "0", Version: "1", Release: "1", Arch: s}
								*[]*string{&nv.Epoch, &nv.Version, &nv.Release}[f] = s
								ns = append(ns, nv)
							}
							ns.Sort()
							var out []string
							for _, nv := range ns {
								k := []string{nv.Epoch, nv.Version, nv.Release}[f]
								if k != nv.Arch {
									x.Fail("sorting NEVRAs mixed up the fields of two elements: %v", nv)
								}
								if i, _ := strconv.Atoi(nv.Name); v[n-i] != nv.Arch {
									x.Fail("sorting NEVRAs mixed up the names of two elements: %v", nv)
								}
								out = append(out, k)
							}
							checkSorted(x, v, out)
						}
						x.StepN(5)
						x.Validated()
					},
				},
				{
					Name: "order-laws", Desc: fmt.Sprintf("all triples of the %d strings of length <= 2: reflexive, antisymmetric, transitive", len(small)),
					Run: func(x *X) {
						a := small[x.Choose(len(small))]
						b := small[x.Choose(len(small))]
						ab := checkVer(x, a, b)
						x.Check(ab == -checkVer(x, b, a), "Vercmp is not antisymmetric on %q, %q", a, b)
						x.Check(checkVer(x, a, a) == 0, "Vercmp(%q, itself) is not 0", a)
						for _, c := range small {
							bc := rpmutils.Vercmp(b, c)
							ac := rpmutils.Vercmp(a, c)
							x.StepN(2)
							if ab <= 0 && bc <= 0 && ac > 0 {
								x.Fail("Vercmp is not transitive on %q, %q, %q", a, b, c)
							}
						}
						x.State(a, b)
					},
				},
				{
					Name: "nevracmp", Desc: fmt.Sprintf("all pairs of NEVRAs with epoch, version, release from %q and two names and archs", evr),
					Run: func(x *X) {
						a := rpmutils.NEVRA{Name: "x", Epoch: evr[x.Choose(len(evr))], Version: evr[x.Choose(len(evr))], Release: evr[x.Choose(len(evr))], Arch: "q"}
						for _, e := range evr {
							for _, v := range evr {
								for _, r := range evr {
									b := rpmutils.NEVRA{Name: "a", Epoch: e, Version: v, Release: r, Arch: "z"}
									want := refVercmp(a.Epoch, b.Epoch)
									if want == 0 {
										want = refVercmp(a.Version, b.Version)
									}
									if want == 0 {
										want = refVercmp(a.Release, b.Release)
									}
									got := rpmutils.NEVRAcmp(a, b)
									x.Step()
									x.Validated()
									if got != want {
										x.Fail("NEVRAcmp(%v, %v) = %d, want %d", a, b, got, want)
									}
								}
							}
						}
						x.State(a.Epoch, a.Version, a.Release)
						x.Logf("NEVRAcmp(%v, all)", a)
					},
				},
				{
					Name: "sorting", Desc: fmt.Sprintf("every sequence of length <= %d over %q sorted as VersionSlice and as NEVRASlice, plus rotations of a 40 element sequence", sortLen, sortAlpha),
					Run: func(x *X) {
						n := x.Choose(sortLen + 2) // one more: the long sequence
						var in []string
						if n == sortLen+1 {
							all := words([]string{"1", "a", "~"}, 3)
							rot := x.Choose(len(all))
							in = append(append(in, all[rot:]...), all[:rot]...)
						} else {
							for i := 0; i < n; i++ {
								in = append(in, sortAlpha[x.Choose(len(sortAlpha))])
							}
						}
						x.State(strings.Join(in, " "))
						vs := rpmutils.VersionSlice(append([]string{}, in...))
						sort.Sort(vs)
						x.Step()
						checkSorted(x, in, vs)
						var ns rpmutils.NEVRASlice
						for i, s := range in {
							// the key is in a different field each time
							nv := rpmutils.NEVRA{Name: fmt.Sprintf("%d-%s", 9-i%10, s), Epoch: "0", Version: "1", Release: "1"}
							switch n % 3 {
							case 0:
								nv.Epoch = s
							case 1:
								nv.Version = s
							case 2:
								nv.Release = s
							}
							ns = append(ns, nv)
						}
						orig := append(rpmutils.NEVRASlice{}, ns...)
						ns.Sort()
						x.Step()
						var out, on, oo []string
						for i, nv := range ns {
							out = append(out, []string{nv.Epoch, nv.Version, nv.Release}[n%3])
							on = append(on, nv.String())
							oo = append(oo, orig[i].String())
						}
						checkSorted(x, in, out)
						sort.Strings(on)
						sort.Strings(oo)
						if strings.Join(on, "|") != strings.Join(oo, "|") {
							x.Fail("sorting NEVRAs %v lost or duplicated elements", orig)
						}
						x.Validated()
						x.Logf("sort %q -> %q", in, []string(vs))
					},
				},
			}
		},
	})
}

func checkSorted(x *X, in, out []string) {
	for i := 1; i < len(out); i++ {
		if refVercmp(out[i-1], out[i]) > 0 {
			x.Fail("sorting %q gave %q: element %d is out of order", in, out, i)
		}
	}
	a := append([]string{}, in...)
	b := append([]string{}, out...)
	sort.Strings(a)
	sort.Strings(b)
	if len(a) != len(b) || strings.Join(a, "\x01") != strings.Join(b, "\x01") {
		x.Fail("sorting %q gave %q: not a permutation", in, out)
	}
}
