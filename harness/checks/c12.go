package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/pbt"
)

type recorder struct {
	p.DefaultASTVisitor
	enter, leave func(p.Expr)
}

func (r *recorder) Enter(n p.Expr) {
	if r.enter != nil {
		r.enter(n)
	}
}
func (r *recorder) Leave(n p.Expr) {
	if r.leave != nil {
		r.leave(n)
	}
}

func init() {
	register(&Check{
		ID: "C12", Quick: 150000, Thorough: 2000000,
		Rule: "the tree of one random statement visited by a recording visitor, then again with an error at a random node; non-trivial: at least 8 nodes; distinct by text",
		Run: func(c *pbt.Case) {
			root := source(c)
			items := astx.Nodes(root)
			order, msg := visitAll(root, items)
			if msg != "" {
				c.Fail("%s", msg)
			}
			k := c.Intn(len(order))
			if msg := visitStop(root, order, k, pbt.Pick(c, stops)); msg != "" {
				c.Fail("%s", msg)
			}
			if c.P(1, 3) {
				nestedVisits(c, root, order, parents(items))
			}
			c.NonTrivial = len(order) >= 8
		},
		Try: func(kind, in string) string {
			st, err := parse(in)
			if err != nil {
				return "rejected: " + oneLine(err)
			}
			for _, n := range st {
				order, msg := visitAll(n, astx.Nodes(n))
				if msg != "" {
					return msg
				}
				for k := range order {
					if msg := visitStop(n, order, k, stops[k%len(stops)]); msg != "" {
						return msg
					}
				}
			}
			return ""
		},
	})
}

func visitAll(root p.Expr, items []astx.Item) ([]p.Expr, string) {
	var order []p.Expr
	seen := map[p.Expr]int{}
	var open []p.Expr
	bad := ""
	note := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	parent := parents(items)
	v := &recorder{}
	v.enter = func(n p.Expr) {
		if q := parent[n]; q != nil && (len(open) == 0 || open[len(open)-1] != q) {
			note("%s is entered outside its parent %s", describe(n), describe(q))
		}
		open = append(open, n)
	}
	v.leave = func(n p.Expr) {
		if len(open) == 0 || open[len(open)-1] != n {
			note("Leave of %s does not match Enter", describe(n))
			return
		}
		open = open[:len(open)-1]
	}
	v.Visit = func(n p.Expr) error {
		if astx.IsNil(n) {
			note("nil node visited")
			return nil
		}
		if len(open) == 0 || open[len(open)-1] != n {
			note("%s is visited, but another node was entered last", describe(n))
		}
		seen[n]++
		order = append(order, n)
		return nil
	}
	if err := root.Accept(v); err != nil {
		return nil, fmt.Sprintf("Accept returns %v", err)
	}
	if len(open) > 0 {
		note("%s is entered and never left", describe(open[0]))
	}
	for _, it := range items {
		switch k := seen[it.Node]; {
		case k == 0:
			return nil, fmt.Sprintf("the visitor does not see %s, field %s of %s", describe(it.Node), it.Field, astx.TypeName(it.Parent))
		case k > 1:
			return nil, fmt.Sprintf("the visitor sees %s %d times, field %s of %s", describe(it.Node), k, it.Field, astx.TypeName(it.Parent))
		}
	}
	if bad != "" {
		return nil, bad
	}
	if len(order) != len(items) {
		return nil, fmt.Sprintf("%d nodes visited, the tree has %d", len(order), len(items))
	}
	at := map[p.Expr]int{}
	for i, n := range order {
		at[n] = i
	}
	for _, it := range items {
		if it.Parent != nil && at[it.Parent] < at[it.Node] {
			return nil, fmt.Sprintf("%s is visited before its descendant %s", describe(it.Parent), describe(it.Node))
		}
	}
	return order, ""
}

type ownError struct{ s string }

func (e *ownError) Error() string { return e.s }

// stops are errors a visitor may return; some mean the end of something elsewhere.
var stops = []error{errors.New("stop"), errors.New(""), io.EOF, fs.SkipDir, fs.SkipAll, context.Canceled, &ownError{"own"}, (*ownError)(&ownError{}), fmt.Errorf("wrapped: %w", io.EOF), &p.ParseError{}}

// nestedVisits visits a part of the tree from within a visit.
func nestedVisits(c *pbt.Case, root p.Expr, order []p.Expr, parent map[p.Expr]p.Expr) {
	c.Label("nested visits")
	at := pbt.Pick(c, order)
	var inner []p.Expr
	for _, n := range order {
		for q := n; q != nil; q = parent[q] {
			if q == at {
				inner = append(inner, n)
				break
			}
		}
	}
	k := c.Intn(len(inner))
	stop := pbt.Pick(c, stops)
	var got []p.Expr
	v := &recorder{}
	v.Visit = func(n p.Expr) error {
		got = append(got, n)
		if n != at {
			return nil
		}
		var in []p.Expr
		w := &recorder{}
		w.Visit = func(n p.Expr) error { in = append(in, n); return nil }
		if err := n.Accept(w); err != nil {
			c.Fail("Accept of %s within a visit returns %v", describe(at), err)
		}
		if d := sameNodes(in, inner); d != "" {
			c.Fail("Accept of %s within a visit: %s", describe(at), d)
		}
		if msg := visitStop(n, inner, k, stop); msg != "" {
			c.Fail("within a visit: %s", msg)
		}
		return nil
	}
	if err := root.Accept(v); err != nil {
		c.Fail("Accept with another within returns %v", err)
	}
	if d := sameNodes(got, order); d != "" {
		c.Fail("Accept with another within: %s", d)
	}
}

// visitStop lets the visitor fail at the k-th visited node.
func visitStop(root p.Expr, order []p.Expr, k int, stop error) string {
	var got []p.Expr
	open := 0
	v := &recorder{enter: func(p.Expr) { open++ }, leave: func(p.Expr) { open-- }}
	v.Visit = func(n p.Expr) error {
		got = append(got, n)
		if n == order[k] {
			return stop
		}
		return nil
	}
	err := root.Accept(v)
	if err != stop {
		return fmt.Sprintf("the visitor failed at node %d (%s), Accept returns %v", k, describe(order[k]), err)
	}
	if open != 0 {
		return fmt.Sprintf("the visitor failed at node %d (%s): %d nodes entered and not left", k, describe(order[k]), open)
	}
	if d := sameNodes(got, order[:k+1]); d != "" {
		return fmt.Sprintf("the visitor failed at node %d (%s): %s", k, describe(order[k]), d)
	}
	return ""
}
