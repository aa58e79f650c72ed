package checks

import (
	"verif/rt"
	"verif/sim"
)

// p02Group replays recorded group messages throughout a group's life: at once,
// after later messages and gaps, after old and new descriptions of the chain
// have been processed (again), after the sender started anew and after its
// chain moved far on.
func p02Group(c *rt.Case) {
	r := c.R
	n := 2 + r.Intn(2)
	w := sim.NewGroup(c, n, 1+r.Intn(2), format(c), anyMode(c))
	g := len(w.Names)
	var q, read []pair2
	replay := func(k int) {
		for ; k > 0 && len(read) > 0; k-- {
			p := read[len(read)-1-r.Intn(min(len(read), pick(c, 1, 5, len(read))))]
			w.Deliver(p.v, p.m)
			c.Count("group_replays", 1)
		}
	}
	deliver := func(i int) {
		p := q[i]
		q = append(q[:i:i], q[i+1:]...)
		if w.Deliver(p.v, p.m) {
			read = append(read, p)
		}
		if r.Intn(3) == 0 {
			replay(1 + r.Intn(2))
		}
	}
	for s := 0; s < n; s++ {
		d := w.Create(s, r.Intn(g))
		for v := 0; v < n; v++ {
			if v != s {
				w.Join(v, d)
			}
		}
	}
	for i := 40 + r.Intn(60); i > 0; i-- {
		s, gi := r.Intn(n), r.Intn(g)
		switch k := r.Intn(16); {
		case k < 2: // described again, by its present state
			d := w.Create(s, gi)
			for v := 0; v < n; v++ {
				if v != s && r.Intn(4) > 0 {
					w.Join(v, d)
				}
			}
			replay(4)
		case k < 4: // an old description comes again
			d := w.Dist[r.Intn(len(w.Dist))]
			v := r.Intn(n)
			if v == d.From {
				break
			}
			w.Join(v, d)
			c.Count("group_redescribed", 1)
			for _, p := range read {
				if p.v == v && p.m.From == d.From && p.m.G == d.G && p.m.Iter >= d.Iter && r.Intn(2) == 0 {
					w.Deliver(p.v, p.m)
					c.Count("group_replays", 1)
				}
			}
		case k == 4 && r.Intn(4) == 0:
			w.Reinstall(s, gi)
		case k == 5 && r.Intn(6) == 0:
			drop := q[:0] // nothing of the chain may be under way
			for _, p := range q {
				if p.m.From != s || p.m.G != gi {
					drop = append(drop, p)
				}
			}
			q = drop
			w.Leap(s, gi)
		case k < 10:
			for j := 1 + r.Intn(4); j > 0; j-- {
				m := w.Send(s, gi, w.Plain())
				if m == nil {
					break
				}
				for v := 0; v < n; v++ {
					if v != s {
						q = append(q, pair2{v, m})
					}
				}
			}
		default:
			for j := r.Intn(2 * n); j >= 0 && len(q) > 0; j-- {
				i := 0
				if r.Intn(2) == 0 {
					i = r.Intn(len(q))
				}
				deliver(i)
			}
		}
	}
	for len(q) > 0 {
		deliver(r.Intn(len(q)))
	}
	for _, d := range w.Dist { // everything comes again
		for v := 0; v < n; v++ {
			if v != d.From && r.Intn(2) == 0 {
				w.Join(v, d)
			}
		}
	}
	for _, i := range r.Perm(len(read)) {
		w.Deliver(read[i].v, read[i].m)
		c.Count("group_replays", 1)
	}
}
