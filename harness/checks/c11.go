package checks

import (
	"fmt"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/pbt"
)

// source draws an accepted text: mostly one generated statement.
func source(c *pbt.Case) p.Expr {
	if c.P(1, 4) {
		_, st := loose(c)
		return pbt.Pick(c, st)
	}
	o := options(c)
	o.PartitionID = true
	b := gen.New(c, o)
	b.Statement()
	for f := range b.Feat {
		c.Label(f)
	}
	return accepted(c, gen.Canonical(b.In).S)
}

func init() {
	register(&Check{
		ID: "C11", Quick: 150000, Thorough: 2000000,
		Rule: "the tree of one random statement, all its nodes found by reflection, random predicates and random nodes to prune or stop at; non-trivial: at least 8 nodes; distinct by text",
		Run: func(c *pbt.Case) {
			root := source(c)
			items := astx.Nodes(root)
			if msg := walkAll(root, items); msg != "" {
				c.Fail("%s", msg)
			}
			var order []p.Expr
			p.Walk(root, func(n p.Expr) bool { order = append(order, n); return true })

			// prune at random nodes
			pruned := map[p.Expr]bool{}
			for i, k := 0, c.Range(1, 3); i < k; i++ {
				pruned[pbt.Pick(c, order)] = true
			}
			below := map[p.Expr]bool{}
			var want []p.Expr
			parent := parents(items)
			for _, n := range order {
				q := parent[n]
				if q != nil && (pruned[q] || below[q]) {
					below[n] = true
					continue
				}
				want = append(want, n)
			}
			var got []p.Expr
			p.Walk(root, func(n p.Expr) bool { got = append(got, n); return !pruned[n] })
			if d := sameNodes(got, want); d != "" {
				c.Fail("Walk with false at %s: %s", names(pruned, order), d)
			}

			// stop at a random node
			stop := c.Intn(len(order))
			got = nil
			done := p.WalkWithBreak(root, func(n p.Expr) bool { got = append(got, n); return n != order[stop] })
			if d := sameNodes(got, order[:stop+1]); d != "" {
				c.Fail("WalkWithBreak stopped at node %d (%T): %s", stop, order[stop], d)
			}
			if done {
				c.Fail("WalkWithBreak stopped at node %d and reports a complete walk", stop)
			}
			got = nil
			if !p.WalkWithBreak(root, func(n p.Expr) bool { got = append(got, n); return true }) {
				c.Fail("a complete WalkWithBreak reports a break")
			}
			if d := sameNodes(got, order); d != "" {
				c.Fail("WalkWithBreak: %s", d)
			}

			// search
			typ := astx.TypeName(pbt.Pick(c, order))
			mod := c.Range(1, 3)
			pred := func(n p.Expr) bool { return astx.TypeName(n) == typ }
			if c.P(1, 3) {
				pred = func(n p.Expr) bool { return len(astx.TypeName(n))%3 == mod%3 }
			}
			if c.P(1, 10) {
				pred = func(n p.Expr) bool { return false }
			}
			want = nil
			for _, n := range order {
				if pred(n) {
					want = append(want, n)
				}
			}
			found := p.FindAll(root, pred)
			if d := sameNodes(found, want); d != "" {
				c.Fail("FindAll: %s", d)
			}
			if c.P(1, 3) {
				nested(c, root, order, parent, pred)
			}
			if d := sameNodes(found, want); d != "" {
				c.Fail("the result of FindAll changed later: %s", d)
			}
			calls := 0
			first, ok := p.Find(root, func(n p.Expr) bool { calls++; return pred(n) })
			if len(want) == 0 {
				if ok || first != nil || calls != len(order) {
					c.Fail("Find of nothing returns %v %v after %d calls", first, ok, calls)
				}
			} else if !ok || first != want[0] {
				c.Fail("Find returns %T %v, not the first match %T", first, ok, want[0])
			}
			c.NonTrivial = len(order) >= 8
		},
		Try: func(kind, in string) string {
			st, err := parse(in)
			if err != nil {
				return "rejected: " + oneLine(err)
			}
			for _, n := range st {
				items := astx.Nodes(n)
				if msg := walkAll(n, items); msg != "" {
					return msg
				}
				var order []p.Expr
				p.Walk(n, func(n p.Expr) bool { order = append(order, n); return true })
				parent := parents(items)
				for i, x := range order {
					below := map[p.Expr]bool{}
					var want, got []p.Expr
					for _, y := range order {
						q := parent[y]
						if q != nil && (q == x || below[q]) {
							below[y] = true
							continue
						}
						want = append(want, y)
					}
					p.Walk(n, func(n p.Expr) bool { got = append(got, n); return n != x })
					if d := sameNodes(got, want); d != "" {
						return fmt.Sprintf("Walk with false at node %d (%T): %s", i, x, d)
					}
				}
			}
			return ""
		},
	})
}

// nested searches and walks a part of the tree from within a walk.
func nested(c *pbt.Case, root p.Expr, order []p.Expr, parent map[p.Expr]p.Expr, pred func(p.Expr) bool) {
	c.Label("nested walks")
	at := pbt.Pick(c, order)
	part := map[p.Expr]bool{at: true}
	var inner, hits []p.Expr
	for _, n := range order {
		if n == at || part[parent[n]] {
			part[n] = true
			inner = append(inner, n)
			if pred(n) {
				hits = append(hits, n)
			}
		}
	}
	stop := c.Intn(len(inner))
	var got []p.Expr
	visit := func(n p.Expr) bool {
		got = append(got, n)
		if n != at {
			return true
		}
		var in []p.Expr
		p.Walk(n, func(n p.Expr) bool { in = append(in, n); return true })
		if d := sameNodes(in, inner); d != "" {
			c.Fail("Walk from %s within a walk: %s", describe(at), d)
		}
		in = nil
		p.WalkWithBreak(n, func(n p.Expr) bool { in = append(in, n); return n != inner[stop] })
		if d := sameNodes(in, inner[:stop+1]); d != "" {
			c.Fail("WalkWithBreak from %s within a walk: %s", describe(at), d)
		}
		if d := sameNodes(p.FindAll(n, pred), hits); d != "" {
			c.Fail("FindAll from %s within a walk: %s", describe(at), d)
		}
		if x, ok := p.Find(n, pred); ok != (len(hits) > 0) || ok && x != hits[0] {
			c.Fail("Find from %s within a walk does not return the first match", describe(at))
		}
		return true
	}
	p.Walk(root, visit)
	if d := sameNodes(got, order); d != "" {
		c.Fail("Walk with another within: %s", d)
	}
	got = nil
	p.WalkWithBreak(root, visit)
	if d := sameNodes(got, order); d != "" {
		c.Fail("WalkWithBreak with another walk within: %s", d)
	}
	got = nil
	p.FindAll(root, visit)
	if d := sameNodes(got, order); d != "" {
		c.Fail("FindAll with a walk within: %s", d)
	}
}

func parents(items []astx.Item) map[p.Expr]p.Expr {
	m := map[p.Expr]p.Expr{}
	for _, it := range items {
		if _, ok := m[it.Node]; !ok {
			m[it.Node] = it.Parent
		}
	}
	return m
}

func names(set map[p.Expr]bool, order []p.Expr) string {
	s := ""
	for i, n := range order {
		if set[n] {
			s += fmt.Sprintf(" %d:%s", i, astx.TypeName(n))
		}
	}
	return s
}

func sameNodes(got, want []p.Expr) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("%d nodes instead of %d, missing %s", len(got), len(want), describe(want[i]))
		case i >= len(want):
			return fmt.Sprintf("%d nodes instead of %d, extra %s", len(got), len(want), describe(got[i]))
		case got[i] != want[i]:
			return fmt.Sprintf("node %d is %s instead of %s", i, describe(got[i]), describe(want[i]))
		}
	}
	return ""
}

func describe(n p.Expr) string { return fmt.Sprintf("%s %q", astx.TypeName(n), short(p.Format(n))) }

// walkAll compares Walk with the nodes found by reflection.
func walkAll(root p.Expr, items []astx.Item) string {
	seen := map[p.Expr]int{}
	n := 0
	ok := true
	bad := ""
	parent := parents(items)
	var path []p.Expr // open ancestors, for depth-first order
	res := p.Walk(root, func(x p.Expr) bool {
		if astx.IsNil(x) {
			ok = false
			return false
		}
		seen[x]++
		n++
		q, known := parent[x]
		if !known {
			bad = fmt.Sprintf("Walk visits %s, which is not in the tree", describe(x))
			return true
		}
		if q == nil {
			path = append(path[:0], x)
			return true
		}
		for len(path) > 0 && path[len(path)-1] != q {
			path = path[:len(path)-1]
		}
		if len(path) == 0 && bad == "" {
			bad = fmt.Sprintf("Walk visits %s outside its parent %s (not depth first, or before it)", describe(x), describe(q))
		}
		path = append(path, x)
		return true
	})
	if !ok {
		return "Walk calls back with a nil node"
	}
	if !res {
		return "Walk of everything reports a stop"
	}
	for _, it := range items {
		switch k := seen[it.Node]; {
		case k == 0:
			return fmt.Sprintf("Walk does not visit %s, field %s of %s", describe(it.Node), it.Field, astx.TypeName(it.Parent))
		case k > 1:
			return fmt.Sprintf("Walk visits %s %d times, field %s of %s", describe(it.Node), k, it.Field, astx.TypeName(it.Parent))
		}
	}
	if bad != "" {
		return bad
	}
	if n != len(items) {
		return fmt.Sprintf("Walk visits %d nodes, the tree has %d", n, len(items))
	}
	return ""
}
