package main

// The "shared loop head" finding.
//
// A repeated part returns, after every iteration, to the very state it started from. When that state
// also belongs to something else (the part is the first item of an optional list, or one of several variants), the
// other choices become available again after an iteration: [{a}, b] is compiled as {a}, [b]
// and ({a} | b) as {a}, [b]. One of these tables is demanded by an existing unit test, hence the defect is
// recorded as a finding and not repaired. deviated returns the grammar that describes the observed language
// exactly, so that any other deviation is still reported as a violation.

func deviated(g *G) (*G, bool) {
	changed := false
	res := &G{}
	var seq func(s Seq) Seq
	// strip removes repeats that share the start state of the item and collects them
	var strip func(it Item, loops *[]Atom) (Item, bool)
	strip = func(it Item, loops *[]Atom) (Item, bool) {
		var out Item
		null := false
		for _, a := range it {
			switch a.K {
			case 'r':
				if len(a.Sub) == 1 {
					// the only item of the body is compiled in the same state
					n := len(*loops)
					inner, _ := strip(a.Sub[0], loops)
					if len(*loops) > n && len(inner) > 0 {
						changed = true // {[{a}, b]}
					}
					if len(inner) > 0 {
						*loops = append(*loops, inner...)
					}
				} else {
					*loops = append(*loops, Atom{K: 'g', Sub: seq(a.Sub)})
				}
				null = true
			case 'o', 'g':
				first, n := strip(a.Sub[0], loops)
				sub := Seq{}
				if len(first) > 0 {
					if n {
						sub = append(sub, Item{{K: 'o', Sub: Seq{first}}})
					} else {
						sub = append(sub, first)
					}
				}
				sub = append(sub, seq(a.Sub[1:])...)
				if a.K == 'o' {
					null = true
				}
				if len(sub) == 0 {
					null = true
					continue
				}
				if seqNullable(sub) {
					null = true
				}
				out = append(out, Atom{K: 'g', Sub: sub})
			default:
				out = append(out, a)
			}
		}
		return out, null
	}
	seq = func(s Seq) Seq {
		var out Seq
		for _, it := range s {
			var loops []Atom
			rest, null := strip(it, &loops)
			if len(loops) == 0 {
				// nothing is shared, still descend
				var ni Item
				for _, a := range it {
					if a.Sub != nil {
						a.Sub = append(Seq{a.Sub[0]}, seq(a.Sub[1:])...)
					}
					ni = append(ni, a)
				}
				out = append(out, ni)
				continue
			}
			if !(len(it) == 1 && it[0].K == 'r') {
				changed = true
			}
			out = append(out, Item{{K: 'r', Sub: Seq{Item(loops)}}})
			if len(rest) > 0 {
				if null {
					out = append(out, Item{{K: 'o', Sub: Seq{rest}}})
				} else {
					out = append(out, rest)
				}
			}
		}
		return out
	}
	for _, b := range g.Bodies {
		res.Bodies = append(res.Bodies, seq(b))
	}
	return res, changed
}

const sharedLoopHead = "shared-loop-head"

// orDeviated runs an oracle against the grammar and, when it fails and the finding is listed, against
// the grammar describing the recorded defect.
func (w *W) orDeviated(g *G, oracle func(g *G) error) error {
	e := oracle(g)
	if e == nil {
		return nil
	}
	id, listed := w.run.known["*\x00"+sharedLoopHead]
	if !listed {
		return e
	}
	d, changed := deviated(g)
	if !changed || oracle(d) != nil {
		return e
	}
	w.run.knownHit(id, "{"+firstLine(e.Error())+"} e.g. "+g.String())
	return nil
}

func (r *Run) knownHit(id, what string) {
	r.mu.Lock()
	if r.knownHits[id] == "" {
		r.knownHits[id] = what
	}
	r.mu.Unlock()
}
