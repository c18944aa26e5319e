// Package astx inspects syntax trees by reflection, without relying on the
// traversal code under test.
package astx

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
)

var (
	posType  = reflect.TypeOf(p.Pos(0))
	exprType = reflect.TypeOf((*p.Expr)(nil)).Elem()
)

// Opt tunes Dump.
type Opt struct {
	Fold   bool                  // compare strings without case
	Pos    bool                  // include positions
	Shift  p.Pos                 // subtracted from positions
	NoKind bool                  // leave out identifier quoting
	Str    func(s string) string // rewrites strings
	// At rewrites strings knowing the field (Type.Field) they are in.
	At func(field, s string) string
}

// Dump renders a tree as text, one value per line.
func Dump(v any, o Opt) string {
	var sb strings.Builder
	d := dumper{sb: &sb, o: o}
	d.val(reflect.ValueOf(v), 0)
	return sb.String()
}

type dumper struct {
	sb *strings.Builder
	o  Opt
	at string // the field being written
}

func (d *dumper) nl(ind int) {
	d.sb.WriteByte('\n')
	for i := 0; i < ind; i++ {
		d.sb.WriteByte(' ')
	}
}

func (d *dumper) val(v reflect.Value, ind int) {
	switch v.Kind() {
	case reflect.Invalid:
		d.sb.WriteString("nil")
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		d.val(v.Elem(), ind)
	case reflect.Slice, reflect.Array:
		d.sb.WriteString("[")
		n := v.Len()
		if n > 0 && strings.HasSuffix(v.Type().String(), "*parser.JSONOption") {
			// the printer groups the options by kind
			idx := make([]int, n)
			for i := range idx {
				idx[i] = i
			}
			rank := func(i int) int {
				e := v.Index(i).Elem()
				for r, f := range []string{"MaxDynamicPaths", "MaxDynamicTypes", "Column", "SkipPath", "SkipRegex"} {
					if fv := e.FieldByName(f); fv.IsValid() && !fv.IsNil() {
						return r
					}
				}
				return 9
			}
			sort.SliceStable(idx, func(a, b int) bool { return rank(idx[a]) < rank(idx[b]) })
			for _, i := range idx {
				d.nl(ind + 1)
				d.val(v.Index(i), ind+1)
			}
			d.sb.WriteString("]")
			return
		}
		for i := 0; i < n; i++ {
			d.nl(ind + 1)
			d.val(v.Index(i), ind+1)
		}
		d.sb.WriteString("]")
	case reflect.Struct:
		t := v.Type()
		d.sb.WriteString(t.Name() + "{")
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == posType {
				if d.o.Pos {
					d.nl(ind + 1)
					x := f.Int()
					fmt.Fprintf(d.sb, "%s: @%d", t.Field(i).Name, x-int64(d.o.Shift))
				}
				continue
			}
			// an empty name may stand for another
			empty := zero(f) && (f.Kind() != reflect.String || d.o.Str == nil || d.o.Str("") == "")
			if empty || d.o.NoKind && strings.HasSuffix(t.Field(i).Name, "QuoteType") {
				continue
			}
			d.nl(ind + 1)
			d.sb.WriteString(t.Field(i).Name + ": ")
			up := d.at
			d.at = t.Name() + "." + t.Field(i).Name
			d.val(f, ind+1)
			d.at = up
		}
		d.sb.WriteString("}")
	case reflect.String:
		s := v.String()
		if d.o.Fold {
			s = strings.ToLower(s)
		}
		if d.o.Str != nil {
			s = d.o.Str(s)
		}
		if d.o.At != nil {
			s = d.o.At(d.at, s)
		}
		d.sb.WriteString(strconv.Quote(s))
	case reflect.Bool:
		fmt.Fprint(d.sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(d.sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(d.sb, v.Uint())
	case reflect.Map:
		fmt.Fprintf(d.sb, "map%d", v.Len())
	default:
		d.sb.WriteString(v.Kind().String())
	}
}

func zero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return true
		}
		if v.Kind() == reflect.Interface {
			return zero(v.Elem())
		}
		return false
	case reflect.Slice:
		return v.Len() == 0
	case reflect.String:
		return v.Len() == 0
	case reflect.Struct, reflect.Array:
		return false
	}
	return v.IsZero()
}

// Diff returns the first difference of two dumps, or "".
func Diff(a, b string) string {
	if a == b {
		return ""
	}
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(la) && i < len(lb) && la[i] == lb[i] {
		i++
	}
	ctx := func(l []string) string {
		hi := i + 2
		if hi > len(l) {
			hi = len(l)
		}
		if i >= len(l) {
			return "<end>"
		}
		return strings.TrimSpace(strings.Join(l[i:hi], " "))
	}
	// path: enclosing lines of lower indentation
	var path []string
	want := 1 << 30
	for k := min(i, len(la)-1); k >= 0; k-- {
		ind := len(la[k]) - len(strings.TrimLeft(la[k], " "))
		if ind < want {
			want = ind
			t := strings.TrimSpace(la[k])
			if j := strings.IndexByte(t, ':'); j > 0 && j < 30 {
				t = t[:j]
			}
			t = strings.TrimRight(t, "{[")
			path = append([]string{t}, path...)
		}
	}
	return fmt.Sprintf("at %s: %s  vs  %s", strings.Join(path, "."), ctx(la), ctx(lb))
}

// Item is a node found in a tree.
type Item struct {
	Node   p.Expr
	Parent p.Expr // nearest enclosing node, nil for the root
	Field  string // field path below the parent
	Depth  int
}

// Nodes lists every node reachable from root through the fields of the nodes,
// parents first. A node stored in two places is listed twice.
func Nodes(root p.Expr) []Item {
	var out []Item
	var rec, fields func(v reflect.Value, parent p.Expr, field string, depth int)
	fields = func(v reflect.Value, parent p.Expr, field string, depth int) {
		for i := 0; i < v.NumField(); i++ {
			name := v.Type().Field(i).Name
			if field != "" {
				name = field + "." + name
			}
			rec(v.Field(i), parent, name, depth)
		}
	}
	rec = func(v reflect.Value, parent p.Expr, field string, depth int) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem(), parent, field, depth)
			}
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if v.Type().Implements(exprType) && v.CanInterface() {
				n := v.Interface().(p.Expr)
				out = append(out, Item{n, parent, field, depth})
				fields(v.Elem(), n, "", depth+1)
				return
			}
			rec(v.Elem(), parent, field, depth)
		case reflect.Struct:
			if v.CanAddr() && v.Addr().CanInterface() && v.Addr().Type().Implements(exprType) {
				rec(v.Addr(), parent, field, depth) // a node held by value
				return
			}
			fields(v, parent, field, depth)
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), parent, field+"["+strconv.Itoa(i)+"]", depth)
			}
		}
	}
	rec(reflect.ValueOf(root), nil, "", 0)
	return out
}

// TypeName is the bare type name of a node.
func TypeName(n any) string {
	t := reflect.TypeOf(n)
	for t != nil && t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if t == nil {
		return "nil"
	}
	return t.Name()
}

// IsNil reports nil and typed nil.
func IsNil(n any) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Pointer && v.IsNil()
}
