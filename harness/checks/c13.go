package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C13", Quick: 6000, Thorough: 300000, Workers: 4,
		Rule: "two to six texts (random statements, one in three damaged) parsed, formatted, walked, visited and searched in a random order, repeatedly, alone and in concurrent goroutines under the race detector, with trees shared between goroutines for reading, some after thousands of other parses, some against a new process; non-trivial: at least two distinct texts; distinct by texts",
		Run:  isolated,
	})
}

// outcome is everything observable about one text.
type outcome struct {
	Text  string
	Err   string
	Trees []string
	Fmts  []string
	Nice  []string
	Walk  string
}

func observe(s string) (outcome, []p.Expr) {
	o := outcome{Text: s}
	st, err := parse(s)
	if err != nil {
		o.Err = err.Error() + errorFields(err)
		if again := err.Error() + errorFields(err); again != o.Err {
			o.Err += " and, rendered again, " + again
		}
	}
	for _, n := range st {
		o.Trees = append(o.Trees, astx.Dump(n, astx.Opt{Pos: true}))
		o.Fmts = append(o.Fmts, p.Format(n))
		o.Nice = append(o.Nice, beautify(n, "  "))
		f := p.NewFormatter()
		f.WriteExpr(n)
		if a, b := f.String(), f.String(); a != b {
			o.Fmts = append(o.Fmts, "read twice: "+a+" and "+b)
		}
		if js, err := json.Marshal(n); err != nil {
			o.Walk += err.Error()
		} else {
			o.Walk += fmt.Sprint(len(js))
		}
		o.Walk += walkText(n)
	}
	return o, st
}

// Observe answers a list of texts with what a process that has seen nothing
// else observes of them.
func Observe() error {
	var texts []string
	if err := json.NewDecoder(os.Stdin).Decode(&texts); err != nil {
		return err
	}
	var list []outcome
	for _, s := range texts {
		o, _ := observe(s)
		list = append(list, o)
	}
	return json.NewEncoder(os.Stdout).Encode(list)
}

// elsewhere observes the texts in a new process, nil when there is none.
func elsewhere(texts []string) []outcome {
	exe, err := os.Executable()
	if err != nil {
		return nil
	}
	in, _ := json.Marshal(texts)
	cmd := exec.Command(exe, "observe", "C13")
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	if err != nil {
		return nil
	}
	var list []outcome
	if json.Unmarshal(out, &list) != nil || len(list) != len(texts) {
		return nil
	}
	return list
}

// history is a long series of other texts.
func history(c *pbt.Case, texts []string) {
	n := pbt.Pick(c, []int{100, 300, 300, 2000})
	kind := c.Intn(4)
	for i := 0; i < n; i++ {
		s := fmt.Sprintf("SELECT a%d FROM t%d WHERE x = 'y%d'", i, i, i)
		switch kind {
		case 1:
			s = fmt.Sprintf("CREATE TABLE t%d (a%d Int8 DEFAULT %d) ENGINE = M", i, i, i)
		case 2:
			s = fmt.Sprintf("SELECT a%d FROM t%d WHERE (x", i, i)
		case 3:
			s = texts[i%len(texts)]
			if len(s) > 300 {
				s = s[:300]
			}
			s = s[:len(s)-len(s)*(i%7)/7]
		}
		st, err := parse(s)
		if err != nil {
			_ = err.Error()
		}
		for _, x := range st {
			p.Format(x)
			p.Walk(x, func(p.Expr) bool { return true })
		}
	}
}

// valid tells whether JSON carries the texts unchanged.
func valid(texts []string) bool {
	for _, s := range texts {
		if strings.ToValidUTF8(s, "") != s {
			return false
		}
	}
	return true
}

func errorFields(err error) string {
	if pe, ok := err.(*p.ParseError); ok {
		return fmt.Sprintf("|%d|%d|%d|%v|%s|%s", pe.Pos, pe.Line, pe.Column, pe.Expected, pe.Keyword, pe.Msg)
	}
	return ""
}

func walkText(n p.Expr) string {
	s := ""
	p.Walk(n, func(x p.Expr) bool {
		s += fmt.Sprintf("%s@%d-%d ", astx.TypeName(x), x.Pos(), x.End())
		return true
	})
	k := 0
	v := &p.DefaultASTVisitor{Visit: func(p.Expr) error { k++; return nil }}
	if err := n.Accept(v); err != nil {
		s += err.Error()
	}
	all := p.FindAll(n, func(x p.Expr) bool { _, ok := x.(*p.Ident); return ok })
	_, ok := p.Find(n, func(x p.Expr) bool { _, ok := x.(*p.NumberLiteral); return ok })
	return fmt.Sprint(s, k, len(all), ok)
}

func (o outcome) diff(q outcome) string {
	if o.Err != q.Err {
		return fmt.Sprintf("error %q then %q", o.Err, q.Err)
	}
	if len(o.Trees) != len(q.Trees) {
		return fmt.Sprintf("%d statements then %d", len(o.Trees), len(q.Trees))
	}
	for i := range o.Trees {
		if d := astx.Diff(o.Trees[i], q.Trees[i]); d != "" {
			return "tree: " + d
		}
		if o.Fmts[i] != q.Fmts[i] {
			return fmt.Sprintf("text %q then %q", o.Fmts[i], q.Fmts[i])
		}
		if o.Nice[i] != q.Nice[i] {
			return fmt.Sprintf("beautified text %q then %q", o.Nice[i], q.Nice[i])
		}
	}
	if o.Walk != q.Walk {
		return fmt.Sprintf("walk %s then %s", short(o.Walk), short(q.Walk))
	}
	return ""
}

func isolated(c *pbt.Case) {
	n := c.Range(2, 6)
	var texts []string
	set := map[string]bool{}
	for i := 0; i < n; i++ {
		s := ""
		if c.P(1, 4) {
			s = anyText(c)
		} else {
			b, _ := build(c)
			toks := b.In
			if c.P(1, 3) {
				toks = damage(c, toks)
			}
			s = gen.Canonical(toks).S
		}
		if c.P(1, 6) && len(s) > 1 {
			s = s[:c.Intn(len(s))]
		}
		texts = append(texts, s)
		set[s] = true
		c.Input(s)
	}
	c.NonTrivial = len(set) >= 2
	first := make([]outcome, n)
	trees := make([][]p.Expr, n)
	for i, s := range texts {
		first[i], trees[i] = observe(s)
	}
	if c.P(1, 60) && valid(texts) {
		c.Label("new process")
		back := make([]string, n)
		for i := range texts {
			back[n-1-i] = texts[i]
		}
		for i, o := range elsewhere(back) {
			if d := first[n-1-i].diff(o); d != "" {
				c.Fail("a new process does not agree about %q: %s", short(back[i]), d)
			}
		}
	}
	if c.P(1, 150) {
		c.Label("long history")
		history(c, texts)
	}
	// again, in another order
	for k, m := 0, c.Range(1, 2*n); k < m; k++ {
		i := c.Intn(n)
		o, _ := observe(texts[i])
		if d := first[i].diff(o); d != "" {
			c.Fail("parsing %q again: %s", short(texts[i]), d)
		}
	}
	// no operation changed the trees
	for i := range trees {
		for j, t := range trees[i] {
			if d := astx.Diff(first[i].Trees[j], astx.Dump(t, astx.Opt{Pos: true})); d != "" {
				c.Fail("reading the tree of %q changed it: %s", short(texts[i]), d)
			}
		}
	}
	// concurrently, the old trees shared
	var wg sync.WaitGroup
	msgs := make([]string, 2*n)
	for g := 0; g < 2*n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			i := g % n
			o, _ := observe(texts[i])
			if d := first[i].diff(o); d != "" {
				msgs[g] = fmt.Sprintf("parsing %q concurrently: %s", short(texts[i]), d)
				return
			}
			for j, t := range trees[i] {
				if f := p.Format(t); f != first[i].Fmts[j] {
					msgs[g] = fmt.Sprintf("formatting %q concurrently: %q", short(texts[i]), f)
				}
				walkText(t)
				beautify(t, "\t")
			}
		}(g)
	}
	wg.Wait()
	for _, m := range msgs {
		if m != "" {
			c.Fail("%s", m)
		}
	}
	// trees of different parses share nothing that can be changed
	i := c.Intn(n)
	_, again := observe(texts[i])
	mine := pointers(trees[i])
	for where, ptr := range pointers(again) {
		_ = where
		if f, ok := mine[where]; ok {
			c.Fail("two parses of %q share %s and %s", short(texts[i]), f, ptr)
		}
	}
	j := c.Intn(n)
	if j != i {
		for where, ptr := range pointers(trees[j]) {
			if f, ok := mine[where]; ok {
				c.Fail("the trees of %q and %q share %s and %s", short(texts[i]), short(texts[j]), f, ptr)
			}
		}
	}
	// changing one tree leaves the others and later parses alone
	for _, t := range again {
		scramble(reflect.ValueOf(t))
	}
	for k := range trees {
		for x, t := range trees[k] {
			if d := astx.Diff(first[k].Trees[x], astx.Dump(t, astx.Opt{Pos: true})); d != "" {
				c.Fail("changing a tree of %q changed another tree of %q: %s", short(texts[i]), short(texts[k]), d)
			}
		}
		o, _ := observe(texts[k])
		if d := first[k].diff(o); d != "" {
			c.Fail("changing a tree of %q changed a later parse of %q: %s", short(texts[i]), short(texts[k]), d)
		}
	}
}

// pointers lists the addresses a tree refers to.
func pointers(ts []p.Expr) map[uintptr]string {
	m := map[uintptr]string{}
	var rec func(v reflect.Value, path string)
	rec = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem(), path)
			}
		case reflect.Pointer:
			if v.IsNil() || v.Type().Elem().Size() == 0 {
				return
			}
			m[v.Pointer()] = path
			rec(v.Elem(), path)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		case reflect.Slice:
			if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
				m[v.Pointer()] = path
			}
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		}
	}
	for _, t := range ts {
		rec(reflect.ValueOf(t), astx.TypeName(t))
	}
	return m
}

// scramble overwrites every string and slice element of a tree.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	}
}
