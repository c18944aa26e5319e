// Package gen builds random ClickHouse statements together with what a reader
// of the grammar knows about them: the tokens as written, the tokens the
// compact formatter is expected to print, and a tree of roles and clauses.
// It shares no code with the code under test.
package gen

import (
	"fmt"
	"strings"

	"verif/harness/pbt"
)

type Kind int

const (
	KW   Kind = iota // keyword: letter case is free
	Name             // user-chosen name, text includes the quotes
	Num
	Str // text includes the quotes
	Op
	Verb // word whose spelling is kept verbatim (NULL, type parameters ...)
)

// Tok is one token as written or as expected in the output.
type Tok struct {
	S    string
	K    Kind
	Role string // what the token names (table, alias, function, ...)
	Pos  NamePos
	Alt  bool // this name token can be exchanged for another spelling (C18)
	Need bool // without this keyword the text is no statement
	ID   int  // identity: the same ID in In and Out means the same token
}

// NamePos says which spellings the grammar position of a name accepts.
type NamePos int

const (
	PosIdent     NamePos = iota // names, quoted names, non-reserved keywords that are safe there
	PosAny                      // also reserved keywords
	PosString                   // also 'single quoted'
	PosPlain                    // only plain and quoted words, no keywords
	PosAfterDot                 // any keyword, and $-words
	PosAnyString                // any keyword, or 'single quoted'
	PosColDef                   // PosIdent without the words that start another table element
	PosNotTable                 // PosString without TABLE and FUNCTION
)

// Node is one grammar node with the fields that were written.
type Node struct {
	Type   string
	Fields map[string]*Field
	Order  []string
	Out    []Tok
}

// Field is one written field of a node.
type Field struct {
	Flag bool
	Val  string
	Toks []Tok // expected formatted tokens of the field value
	List []*Field
	Kids []*Node
}

// B is a statement under construction.
type B struct {
	C     *pbt.Case
	In    []Tok
	Out   []Tok
	n     int
	id    int
	Root  *Node
	stack []*Field // where nodes are attached
	cur   []*Node

	Exprs     []*Site // expressions written, with their expected grouping
	Opt       Options
	depth     int
	Feat      map[string]bool
	exclude   map[string]int
	seg       int // nesting of seg(): outputs captured
	quote     byte
	noOpStart bool
	noDot     bool // numbers start with a digit
	subq      int
	setops    int
	tower     int      // levels still to write of a deep expression,
	typeTower int      // of a deep type
	fromTower int      // and of a deep chain of subqueries
	plains    []string // the plain names written
	strs      []string // the strings
	operand   bool     // the next query is an operand in parentheses
	sampled   int      // tokens written when a SAMPLE without OFFSET ended
	closed    bool     // the last query ended with something a bare name cannot extend
}

// Site is one place where a whole expression was written.
type Site struct {
	Where string
	E     *E
	Out   []Tok
	Lo    int // span in In
	Hi    int
}

// Options tunes generation.
type Options struct {
	MaxDepth    int
	OpHeavy     bool // expressions made mostly of operators
	PlainName   bool // only plain names
	WeirdLit    bool // more unusual literals and quoted names
	Simple      bool // default names and literals mostly
	NoComment   bool
	PartitionID bool // also PARTITION ID 'x', whose ID is not printed
}

func New(c *pbt.Case, o Options) *B {
	if o.MaxDepth == 0 {
		o.MaxDepth = 3
	}
	b := &B{C: c, Opt: o, Feat: map[string]bool{}}
	root := &Field{}
	b.stack = []*Field{root}
	return b
}

// Reset drops the tokens but keeps the name counter, for scripts.
func (b *B) Reset() {
	b.In, b.Out, b.Root, b.Exprs = nil, nil, nil, nil
	b.stack = []*Field{{}}
	b.cur = nil
	b.depth = 0
}

func (b *B) feat(s string) { b.Feat[s] = true }

func (b *B) nextID() int { b.id++; return b.id }

func (b *B) both(t Tok) Tok {
	t.ID = b.nextID()
	b.In = append(b.In, t)
	b.Out = append(b.Out, t)
	return t
}

// kw writes space separated keywords.
func (b *B) kw(s string) {
	for _, w := range strings.Fields(s) {
		b.both(Tok{S: w, K: KW})
	}
}

// need writes a keyword that may not be left out.
func (b *B) need(s string) { b.both(Tok{S: s, K: KW, Need: true}) }

func (b *B) inKw(s string) {
	for _, w := range strings.Fields(s) {
		b.In = append(b.In, Tok{S: w, K: KW, ID: b.nextID()})
	}
}
func (b *B) outKw(s string) {
	for _, w := range strings.Fields(s) {
		b.Out = append(b.Out, Tok{S: w, K: KW, ID: b.nextID()})
	}
}

// op writes operators / punctuation, space separated.
func (b *B) op(s string) {
	for _, w := range strings.Fields(s) {
		b.both(Tok{S: w, K: Op})
	}
}
func (b *B) inOp(s string) {
	for _, w := range strings.Fields(s) {
		b.In = append(b.In, Tok{S: w, K: Op, ID: b.nextID()})
	}
}
func (b *B) outOp(s string) {
	for _, w := range strings.Fields(s) {
		b.Out = append(b.Out, Tok{S: w, K: Op, ID: b.nextID()})
	}
}
func (b *B) verb(s string) { b.both(Tok{S: s, K: Verb}) }

// verbs writes words that are kept verbatim.
func (b *B) numTok(s string) Tok { return b.both(Tok{S: s, K: Num, Role: "number"}) }

// cut runs f and takes away the output tokens it produced.
func (b *B) cut(f func()) []Tok {
	save := b.Out
	b.Out = nil
	f()
	seg := b.Out
	b.Out = save
	return seg
}
func (b *B) put(seg []Tok) { b.Out = append(b.Out, seg...) }

// node opens a grammar node in the current field.
func (b *B) node(typ string, f func()) *Node {
	n := &Node{Type: typ, Fields: map[string]*Field{}}
	top := b.stack[len(b.stack)-1]
	top.Kids = append(top.Kids, n)
	if b.Root == nil {
		b.Root = n
	}
	b.cur = append(b.cur, n)
	b.stack = append(b.stack, &Field{}) // kids outside any field are ignored
	start := len(b.Out)
	f()
	if start <= len(b.Out) {
		n.Out = append([]Tok{}, b.Out[start:]...)
	}
	b.stack = b.stack[:len(b.stack)-1]
	b.cur = b.cur[:len(b.cur)-1]
	return n
}

// field marks what f writes as field name of the current node.
func (b *B) field(name string, f func()) *Field {
	n := b.cur[len(b.cur)-1]
	fd := &Field{}
	n.Fields[name] = fd
	n.Order = append(n.Order, name)
	b.stack = append(b.stack, fd)
	start := len(b.Out)
	f()
	fd.Toks = append([]Tok{}, b.Out[start:]...)
	b.stack = b.stack[:len(b.stack)-1]
	return fd
}

// elem marks what f writes as the next element of list field name.
func (b *B) elem(name string, f func()) {
	n := b.cur[len(b.cur)-1]
	fd := n.Fields[name]
	if fd == nil {
		fd = &Field{}
		n.Fields[name] = fd
		n.Order = append(n.Order, name)
	}
	el := &Field{}
	fd.List = append(fd.List, el)
	b.stack = append(b.stack, el)
	start := len(b.Out)
	f()
	el.Toks = append([]Tok{}, b.Out[start:]...)
	b.stack = b.stack[:len(b.stack)-1]
}

func (b *B) flag(name string) {
	n := b.cur[len(b.cur)-1]
	n.Fields[name] = &Field{Flag: true}
	n.Order = append(n.Order, name)
}
func (b *B) val(name, v string) {
	n := b.cur[len(b.cur)-1]
	n.Fields[name] = &Field{Val: v}
	n.Order = append(n.Order, name)
}

// ---- choices

func (b *B) p(num, den int) bool { return b.C.P(num, den) }
func (b *B) n2(lo, hi int) int   { return b.C.Range(lo, hi) }

// opt writes an optional part with probability 1/den; simplest is absent.
func (b *B) maybe(den int, f func()) bool {
	if b.C.P(1, den) {
		f()
		return true
	}
	return false
}

// count draws the length of a list: between lo and hi, seldom a lot more.
func (b *B) count(lo, hi int) int {
	n := b.n2(lo, hi)
	if hi > lo && b.C.P(1, 1200) {
		n += b.n2(1, 40)
		b.feat("long list")
		if b.C.P(1, 8) {
			n += b.n2(1, 260)
			b.feat("very long list")
		}
	}
	return n
}

// list writes between lo and hi items separated by commas.
func (b *B) list(lo, hi int, f func(i int)) int {
	n := b.count(lo, hi)
	if n > 20 && b.depth < b.Opt.MaxDepth {
		// of small items
		save := b.depth
		b.depth = b.Opt.MaxDepth
		defer func() { b.depth = save }()
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.op(",")
		}
		f(i)
	}
	return n
}

// listT is list with now and then a trailing comma, which the output keeps or not.
func (b *B) listT(lo, hi int, kept bool, f func(i int)) int {
	n := b.list(lo, hi, f)
	if n > 0 && b.C.P(1, 30) {
		b.feat("trailing comma")
		if kept {
			b.op(",")
		} else {
			b.inOp(",")
		}
	}
	return n
}

// ---- names

var plainBases = []string{"a", "b", "col", "t", "user_id", "_x", "X", "CamelCase", "$v", "a$b", "__", "Long_Name", "e1", "x0", "zz9"}

// words that are no keywords but look like parts of the grammar
var lookalikes = []string{"nulls", "totals1", "selects", "fromx", "DAYS", "int", "UInt8", "Nested", "String", "tuple", "JSONB", "true1"}

// names with a meaning in ClickHouse, none in its grammar
var knownNames = []string{"numbers", "count", "sum", "toDate", "now", "dual", "information_schema", "one", "_part", "length", "tuple", "map", "position", "concat", "toString", "uniq", "quantile", "multiIf", "plus", "minus", "equals", "negate", "today", "arrayJoin", "untuple", "remote", "merge", "file", "url", "s3", "input", "MergeTree", "Memory", "x", "i", "_", "dictGet", "users", "nan", "infinity", "identity", "plain", "none_", "current_user", "root", "localhost", "readonly", "max_threads", "hits", "test1", "UTC"}

var quotedBases = []string{"a b", "select", "FROM", "1abc", "x.y", "it's", "semi;colon", "-- no comment", "/* no */", "ünï", "новый", "tab\there", "", "`", "\"", "a,b", "(x)", "{p:Int8}", "?", "end", "new\nline", "back\\slash", "100%", "日本", "NULL", " lead", "trail "}

// keywords that may be plain names wherever an identifier is expected
var softKeywords = []string{"id", "KEY", "type", "first", "LAST", "name", "host", "ip", "role", "Source", "quota", "policy", "comment", "database", "status", "volume", "user", "index", "query", "step", "range", "layout", "max", "min", "test", "valid", "engine", "table", "cluster", "events", "logs", "hierarchical", "default", "system", "set", "values", "view", "hour", "final", "any", "day"}

// The other keywords that are not reserved; END, IF and INTERSECT are left out:
// where a name may follow them they are always read as the keyword.
var moreKeywords = strings.Fields(`
add admin after alias anti append apply array asc ascending asof ast async attach both cache cast check clear codec
collate collection column columns compiled config constraint current databases date deduplicate definer delay delete
depends desc descending detach detached dictionaries dictionary disk distributed dns embedded empty estimate every
exists expression extract false fetches filesystem fill flush following for freeze full function functions global
grantees granularity grouping identified inf injective interpolate is_object_id join json kerberos ldap
leading left lifetime live local mark materialize materialized merges minute modify month move moves mutation named
nan_sql no none null nulls option outer outfile over overlay overridable partition pipeline placing populate preceding
primary projection quarter queues randomize realm recompress refresh regexp reload remove replace replica replicated
replication reset restart right row rows sample second security semi sends server sets setting shutdown skip sql
staleness start stop substring sync syntax tables temporary ties timeout timestamp to totals trailing trim true ttl
unbounded uncompressed until update uuid watch week year
`)

// reserved keywords: names only where nothing but a name may follow
var hardKeywords = []string{"select", "FROM", "where", "group", "order", "limit", "Format", "settings", "with", "union", "as", "by", "interval", "case", "between", "and", "or", "not", "in", "like", "having", "window", "using", "on", "create", "drop", "distinct", "offset", "into", "then", "else", "is"}

// HardKeywords lists reserved keywords.
func HardKeywords() []string { return hardKeywords }

func (b *B) quoteName(s string) string {
	bt := !strings.Contains(s, "`")
	dq := !strings.Contains(s, "\"")
	switch {
	case bt && dq:
		if b.C.Bool() {
			return "\"" + s + "\""
		}
		return "`" + s + "`"
	case bt:
		return "`" + s + "`"
	case dq:
		return "\"" + s + "\""
	}
	return "`" + strings.ReplaceAll(s, "`", "") + "`"
}

// spelling draws a spelling for a name at a position.
func (b *B) spelling(pos NamePos) string {
	b.n++
	num := fmt.Sprint(b.n)
	plain := func() string {
		s := pbt.Pick(b.C, plainBases)
		if b.C.P(1, 1500) {
			s += strings.Repeat("x", b.n2(1, 500))
			b.feat("long name")
		}
		s += num
		if n := len(b.plains); n > 0 && !b.Opt.PlainName && b.C.P(1, 25) {
			// a name again
			s = b.plains[b.C.Intn(n)]
			b.feat("repeated name")
			if b.C.P(1, 5) {
				// but for the case of its letters
				s = pbt.Pick(b.C, []func(string) string{strings.ToUpper, strings.ToLower})(s)
			}
		}
		b.plains = append(b.plains, s)
		return s
	}
	if b.Opt.PlainName {
		return plain()
	}
	w := []int{12, 3, 1, 1, 0, 0}
	if b.Opt.WeirdLit {
		w = []int{4, 6, 1, 2, 0, 0}
	}
	switch pos {
	case PosIdent:
	case PosAny, PosAfterDot:
		w[4] = 2
	case PosString, PosNotTable:
		w[5] = 2
	case PosAnyString:
		w[5] = 2
		w[4] = 1
	case PosPlain:
		w[3] = 0
	}
	switch b.C.Weighted(w...) {
	case 0:
		return plain()
	case 1:
		if n := len(b.plains); n > 0 && b.C.P(1, 12) {
			b.feat("repeated name")
			return b.quoteName(b.plains[b.C.Intn(n)])
		}
		if b.C.P(1, 15) {
			return b.quoteName(pbt.Pick(b.C, quotedBases))
		}
		return b.quoteName(pbt.Pick(b.C, quotedBases) + num)
	case 2:
		if b.C.Bool() {
			return pbt.Pick(b.C, knownNames)
		}
		return pbt.Pick(b.C, lookalikes) + num
	case 3:
		s := pbt.Pick(b.C, softKeywords)
		if b.C.P(1, 2) {
			s = pbt.Pick(b.C, moreKeywords)
			if b.C.P(1, 4) {
				s = strings.ToUpper(s)
			}
		}
		switch strings.ToLower(s) {
		case "index", "projection", "constraint":
			if pos == PosColDef {
				s = "id"
			}
		case "table", "function":
			if pos == PosNotTable {
				s = "id"
			}
		}
		return s
	case 4:
		return pbt.Pick(b.C, hardKeywords)
	default:
		return "'" + pbt.Pick(b.C, []string{"t", "a b", "x.y", "sel"}) + num + "'"
	}
}

// name writes a user-chosen name.
func (b *B) name(role string, pos NamePos) Tok {
	return b.both(Tok{S: b.spelling(pos), K: Name, Role: role, Pos: pos, Alt: true})
}

// nameS writes a given plain spelling as a name that may be re-spelled.
func (b *B) nameS(role string, pos NamePos, s string) Tok {
	return b.both(Tok{S: s, K: Name, Role: role, Pos: pos, Alt: true})
}

// fixed writes a word that is read as a name but whose spelling selects
// behaviour (type names, codec names, interval units).
func (b *B) fixed(s string) Tok { return b.both(Tok{S: s, K: Verb}) }

// unique reports a fresh counter value.
func (b *B) fresh() int { b.n++; return b.n }

// ---- literals

var strBodies = []string{"abc", "", "it''s", `it\'s`, `back\\slash`, "line\nbreak", "-- not a comment", "/* no */", "semi;colon", "ünï", "日本", "a`b\"c", "100%", `\n`, `\x41`, "tab\t.", "''", "''''", `\\`, "{x}", "select", "null", " lead", "a,b)", "\r\n x", "?"}

func (b *B) strText() string {
	b.n++
	s := pbt.Pick(b.C, strBodies)
	if b.Opt.Simple {
		s = "s"
	} else if b.C.P(1, 500) {
		s = strings.Repeat(s+"x", b.n2(1, 500))
		b.feat("long string")
	}
	if b.C.P(1, 20) {
		// as it is, an empty string too
		return "'" + s + "'"
	}
	s = "'" + s + fmt.Sprint(b.n) + "'"
	if n := len(b.strs); n > 0 && !b.Opt.Simple && b.C.P(1, 25) {
		s = b.strs[b.C.Intn(n)]
		b.feat("repeated string")
	}
	b.strs = append(b.strs, s)
	return s
}
func (b *B) str() Tok { return b.both(Tok{S: b.strText(), K: Str, Role: "string"}) }

func (b *B) intText() string {
	b.n++
	if s := b.special(); s != "" {
		return s
	}
	switch b.C.Weighted(8, 1, 1) {
	case 1:
		return "0x" + fmt.Sprintf("%X", 160+b.n)
	case 2:
		return "00" + fmt.Sprint(b.n)
	}
	return fmt.Sprint(b.n)
}
func (b *B) int() Tok { return b.both(Tok{S: b.intText(), K: Num, Role: "int"}) }

func (b *B) decText() string {
	b.n++
	if s := b.special(); s != "" {
		return s
	}
	return fmt.Sprint(b.n)
}

// special draws a number with a meaning of its own, seldom.
func (b *B) special() string {
	if b.Opt.Simple || !b.C.P(1, 20) {
		return ""
	}
	b.feat("special number")
	return pbt.Pick(b.C, []string{"0", "1", "2", "3", "6", "8", "9", "10", "16", "32", "64", "100", "128", "255", "256", "1000", "65535", "4294967296", "9223372036854775807", "18446744073709551615", "123456789012345678901234567890", "007"})
}

// dec writes a decimal integer.
func (b *B) dec() Tok { return b.both(Tok{S: b.decText(), K: Num, Role: "dec"}) }

func (b *B) numText() string {
	b.n++
	if s := b.special(); s != "" {
		return s
	}
	n := fmt.Sprint(b.n)
	switch b.C.Weighted(8, 2, 1, 1, 1, 1, 1, 1) {
	case 1:
		return n + ".25"
	case 2:
		return n + "."
	case 3:
		return n + "e5"
	case 4:
		return n + ".5E-3"
	case 5:
		return "0x" + fmt.Sprintf("%x", 160+b.n)
	case 6:
		return n + "E+2"
	case 7:
		return n + ".e1"
	}
	return n
}
func (b *B) num() Tok { return b.both(Tok{S: b.numText(), K: Num, Role: "num"}) }

func clone(t []Tok) []Tok { return append([]Tok{}, t...) }

// Text joins the expected output tokens with spaces (for messages).
func Text(ts []Tok) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(t.S)
	}
	return sb.String()
}

// Respell draws another spelling for a name at a position.
func Respell(c *pbt.Case, n int, pos NamePos) string {
	b := New(c, Options{WeirdLit: c.Bool()})
	b.n = n
	if c.P(1, 4) {
		// a quoted reserved word
		w := pbt.Pick(c, hardKeywords)
		if c.Bool() {
			return "\"" + w + "\""
		}
		return "`" + w + "`"
	}
	return b.spelling(pos)
}
