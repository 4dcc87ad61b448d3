package main

import "fmt"

// A reference grammar, as combinators that build the automaton the token-flow
// analysis of the code is compared with.

type gst struct {
	node      int
	cur, next tset
}

type gram struct {
	t *tokFlow
	g *nfa
}

type grule func(in []gst) []gst

func (m *gram) merge(in []gst) (out []gst) {
	seen := map[string]int{}
	for _, s := range in {
		if s.cur == 0 || s.next == 0 {
			continue
		}
		k := fmt.Sprintf("%x/%x", s.cur, s.next)
		if i, ok := seen[k]; ok {
			m.g.edge(s.node, "", out[i].node)
			continue
		}
		n := m.g.node()
		m.g.edge(s.node, "", n)
		seen[k] = len(out)
		out = append(out, gst{n, s.cur, s.next})
	}
	return
}

// tok: one of these tokens must come next.
func (m *gram) tok(names ...string) grule {
	want := m.t.set(names...)
	return func(in []gst) (out []gst) {
		for _, s := range in {
			if c := s.cur & want; c != 0 {
				out = append(out, gst{m.t.emitTok(m.g, s.node, c), s.next, m.t.all})
			}
		}
		return m.merge(out)
	}
}

func (m *gram) seq(rs ...grule) grule {
	return func(in []gst) []gst {
		for _, r := range rs {
			in = r(in)
		}
		return in
	}
}

func (m *gram) none() grule { return func(in []gst) []gst { return in } }

// ifNext chooses by the next token.
func (m *gram) ifNext(then, els grule, names ...string) grule {
	want := m.t.set(names...)
	return func(in []gst) (out []gst) {
		var a, b []gst
		for _, s := range in {
			a = append(a, gst{s.node, s.cur & want, s.next})
			b = append(b, gst{s.node, s.cur &^ want, s.next})
		}
		return m.merge(append(then(m.merge(a)), els(m.merge(b))...))
	}
}

// only: the next token is not one of these.
func (m *gram) not(names ...string) grule {
	bad := m.t.set(names...)
	return func(in []gst) (out []gst) {
		for _, s := range in {
			out = append(out, gst{s.node, s.cur &^ bad, s.next})
		}
		return m.merge(out)
	}
}

func (m *gram) opt(then grule, names ...string) grule {
	return m.ifNext(m.seq(m.tok(names...), then), m.none(), names...)
}

// any: either, not decided by tokens.
func (m *gram) any(rs ...grule) grule {
	return func(in []gst) (out []gst) {
		for _, r := range rs {
			out = append(out, r(in)...)
		}
		return m.merge(out)
	}
}

// star repeats a rule; cond splits states into those that go on and those that
// stop.
func (m *gram) star(body grule, cond func([]gst) (again, stop []gst)) grule {
	return func(in []gst) []gst {
		heads := map[string]int{}
		var out []gst
		work := in
		for len(work) > 0 {
			var fresh []gst
			for _, s := range work {
				if s.cur == 0 || s.next == 0 {
					continue
				}
				k := fmt.Sprintf("%x/%x", s.cur, s.next)
				if n, ok := heads[k]; ok {
					m.g.edge(s.node, "", n)
					continue
				}
				n := m.g.node()
				m.g.edge(s.node, "", n)
				heads[k] = n
				fresh = append(fresh, gst{n, s.cur, s.next})
			}
			again, stop := cond(fresh)
			out = append(out, stop...)
			if len(again) == 0 {
				break
			}
			work = body(m.merge(again))
		}
		return m.merge(out)
	}
}

// whileNext repeats while the next token is one of these.
func (m *gram) whileNext(body grule, names ...string) grule {
	return m.star(body, m.on(names...))
}

func (m *gram) on(names ...string) func([]gst) (a, b []gst) {
	want := m.t.set(names...)
	return func(in []gst) (a, b []gst) {
		for _, s := range in {
			a = append(a, gst{s.node, s.cur & want, s.next})
			b = append(b, gst{s.node, s.cur &^ want, s.next})
		}
		return
	}
}

// until repeats until the next token is one of these.
func (m *gram) until(body grule, names ...string) grule {
	c := m.on(names...)
	return m.star(body, func(in []gst) (again, stop []gst) {
		stop, again = c(in)
		return
	})
}

// rule uses a recursive rule, which can begin with the given tokens.
func (m *gram) rule(name string, first []string) grule {
	can := m.t.set(first...)
	return func(in []gst) (out []gst) {
		for _, s := range in {
			if s.cur&can == 0 {
				continue
			}
			n := m.g.node()
			m.t.emitSet(m.g, s.node, name, s.cur&can, s.next, n)
			out = append(out, gst{n, m.t.all, m.t.all})
		}
		return m.merge(out)
	}
}

func (m *gram) label(l string) grule {
	return func(in []gst) (out []gst) {
		for _, s := range in {
			n := m.g.node()
			m.g.edge(s.node, l, n)
			out = append(out, gst{n, s.cur, s.next})
		}
		return
	}
}

func (m *gram) build(cur tset, r grule) *nfa {
	m.g = newNFA()
	for _, s := range r([]gst{{0, cur, m.t.all}}) {
		m.t.emitSet(m.g, s.node, "end", s.cur, s.next, 1)
	}
	return m.g
}
