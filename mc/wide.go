package main

// Wide grammars: long lists of variants and long runs of parts. Small spaces enumerate all shapes with few leaves; here most of the leaves
// are alike and up to two of them are replaced by every other kind of atom.

const wideTerms = 8

// wideKinds makes atoms starting with terminal t.
var wideKinds = []func(t int) Atom{
	func(t int) Atom { return sRep(sOne(sTerm(t))) },
	func(t int) Atom { return sRep(sSeq(sTerm(t), sTerm(wideTerms-1))...) },
	func(t int) Atom { return sRep(sSeq(sTerm(t), sOpt(sOne(sTerm(wideTerms-1))))...) },
	func(t int) Atom { return sOpt(sOne(sTerm(t))) },
	func(t int) Atom { return sOpt(sSeq(sTerm(t), sTerm(wideTerms-1))...) },
	func(t int) Atom { return sGrp(sSeq(sTerm(t), sTerm(wideTerms-1))...) },
	func(t int) Atom { return sGrp(sSeq(sOpt(sOne(sTerm(t))), sOpt(sOne(sTerm(wideTerms-1))))...) },
	func(t int) Atom { return sGrp(Item{sTerm(t), sTerm(wideTerms - 1)}) },
	func(t int) Atom { return sNode(1) },
}

// wideDeviations calls f for all lists of n atoms made by base where no more than devs of them are replaced.
func wideDeviations(n, devs int, base func(t int) Atom, f func(as []Atom) bool) bool {
	as := make([]Atom, n)
	for i := range as {
		as[i] = base(i)
	}
	var rec func(from, left int) bool
	rec = func(from, left int) bool {
		if !f(as) {
			return false
		}
		if left == 0 {
			return true
		}
		for i := from; i < n; i++ {
			old := as[i]
			for _, k := range wideKinds {
				as[i] = k(i)
				if !rec(i+1, left-1) {
					return false
				}
			}
			as[i] = old
		}
		return true
	}
	return rec(0, devs)
}

// genWide emits wide grammars with up to kmax similar parts.
func genWide(kmax, devs int, modes []int, maxLen int, filter gfilter) func(emit func(gcase) bool) {
	return func(emit func(gcase) bool) {
		send := func(s Seq) bool {
			g := G{Bodies: []Seq{s}}
			used := false
			g.walk(func(a *Atom) { used = used || a.K == 'n' })
			if used {
				// a node with its own long list of optional parts
				x := sSeq(sRep(sSeq(sOpt(sOne(sTerm(4))), sOpt(sOne(sTerm(5))), sOpt(sOne(sTerm(6))), sTerm(3))...), sTerm(wideTerms-1))
				g.Bodies = append(g.Bodies, x)
			}
			if !filter(&g, analyze(&g)) {
				return true
			}
			for _, m := range modes {
				if !emit(gcase{G: g, Mode: m, MaxLen: maxLen, Terms: wideTerms}) {
					return false
				}
			}
			return true
		}
		wraps := []func(s Seq) Seq{
			func(s Seq) Seq { return s },
			func(s Seq) Seq { return sSeq(sRep(s...)) },
			func(s Seq) Seq { return append(sSeq(sOpt(s...)), sOne(sTerm(6))) },
			func(s Seq) Seq { return append(sSeq(sRep(s...)), sOne(sTerm(6))) },
			func(s Seq) Seq { return append(sSeq(sTerm(5)), s...) },
		}
		for k := 2; k <= kmax; k++ {
			// variants
			if !wideDeviations(k, devs, sTerm, func(as []Atom) bool {
				it := append(Item(nil), as...)
				for _, w := range wraps {
					for _, tail := range []Seq{nil, sSeq(sTerm(7)), sSeq(sOpt(sOne(sTerm(7)))), sSeq(sRep(sOne(sTerm(7))))} {
						if !send(w(append(Seq{it}, tail...))) {
							return false
						}
					}
				}
				return true
			}) {
				return
			}
			// parts
			for _, base := range []func(t int) Atom{sTerm, wideKinds[3], wideKinds[0]} {
				if !wideDeviations(k, devs, base, func(as []Atom) bool {
					for _, w := range wraps {
						if !send(w(sSeq(append([]Atom(nil), as...)...))) {
							return false
						}
					}
					return true
				}) {
					return
				}
			}
		}
	}
}
