package main

// viable-prefix analysis by an Earley-like set of items over a small automaton built from the abstract syntax.
// Items: stack configurations are represented by continuation lists; grammars are small and inputs short, so
// configurations are explored explicitly: a configuration is a linked list of remaining work.

type cont struct {
	kind byte // 's' rest of a sequence, 'l' loop, 'm' mark of a node start (to forbid empty references)
	seq  Seq
	i    int
	atom *Atom
	pos  int
	next *cont
}

type viableG struct{ g *G }

func newViable(g *G) *viableG { return &viableG{g} }

// prefix returns the length of the longest prefix of in that some sentence starts with.
// All nodes are productive, hence a prefix is viable iff some configuration remains after consuming it.
func (v *viableG) prefix(in []int) int {
	return viablePrefix(v.g, in)
}

func viablePrefix(g *G, in []int) int {
	best := 0
	type ckey struct {
		c   *cont
		pos int
	}
	var step func(c *cont, pos int, depth int)
	step = func(c *cont, pos int, depth int) {
		if best == len(in) {
			return
		}
		if c == nil {
			return
		}
		if depth > 200 {
			return // empty loops
		}
		switch c.kind {
		case 'm':
			if c.pos == pos {
				return // a node reference never matches an empty run
			}
			step(c.next, pos, depth+1)
		case 'l':
			if c.pos == pos {
				return // an empty iteration adds nothing
			}
			step(c.next, pos, depth+1)
			step(&cont{kind: 's', seq: c.atom.Sub, next: &cont{kind: 'l', atom: c.atom, pos: pos, next: c.next}}, pos, depth+1)
		case 's':
			if c.i >= len(c.seq) {
				step(c.next, pos, depth+1)
				return
			}
			rest := &cont{kind: 's', seq: c.seq, i: c.i + 1, next: c.next}
			it := c.seq[c.i]
			for j := range it {
				a := &it[j]
				switch a.K {
				case 't':
					if pos < len(in) && in[pos] == a.Arg {
						if pos+1 > best {
							best = pos + 1
						}
						step(rest, pos+1, 0)
					}
				case 'n':
					step(&cont{kind: 's', seq: g.Bodies[a.Arg], next: &cont{kind: 'm', pos: pos, next: rest}}, pos, depth+1)
				case 'e':
					if pos == len(in) {
						step(rest, pos, depth+1)
					}
				case 'g':
					step(&cont{kind: 's', seq: a.Sub, next: rest}, pos, depth+1)
				case 'o':
					step(rest, pos, depth+1)
					step(&cont{kind: 's', seq: a.Sub, next: rest}, pos, depth+1)
				case 'r':
					step(rest, pos, depth+1)
					step(&cont{kind: 's', seq: a.Sub, next: &cont{kind: 'l', atom: a, pos: pos, next: rest}}, pos, depth+1)
				}
			}
		}
	}
	_ = ckey{}
	step(&cont{kind: 's', seq: g.Bodies[0]}, 0, 0)
	return best
}
