package checks

import (
	"errors"
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C10", Quick: 250000, Thorough: 5000000,
		Rule: "one random statement with one structural damage at a random token (cut off, bracket lost, added or exchanged, quote or comment left open, a character or number that is no token, stray or doubled operators and commas, tokens lost, added or moved; or every token of one statement lost, doubled or exchanged in turn), possibly over several lines and inside a script: text that can be no statement must be rejected, other text must be rejected or be accounted for in full by the output, and every error is compared with the text; non-trivial: rejected; distinct by text",
		Run:  malformed,
		Try: func(kind, in string) string {
			st, err := parse(in)
			if kind == "reject" && err == nil {
				return fmt.Sprintf("accepted as %d statements", len(st))
			}
			if err == nil {
				return dropped(in, st)
			}
			return wrongError(in, err)
		},
	})
}

// damaged is a text together with what is known about it.
type damaged struct {
	text string
	at   int    // nothing in front of this offset is damaged
	must string // why it has to be rejected, or ""
}

// anyError checks the error of any rejected text, which may break off anywhere.
func anyError(c *pbt.Case) {
	s := anyText(c)
	if c.P(1, 4) {
		s = damageBytes(c, s)
	}
	c.Input(s)
	st, err := parse(s)
	if err == nil {
		c.Label("still valid")
		if formatDropped(s, st) || recorded(s) {
			c.Discard()
		}
		if msg := dropped(s, st); msg != "" {
			c.Fail("%s; formatted: %q", msg, formatAll(st))
		}
		return
	}
	c.NonTrivial = true
	c.Label("any text")
	if st != nil {
		c.Fail("%d statements besides the error", len(st))
	}
	if msg := wrongError(s, err); msg != "" {
		c.Fail("%s", msg)
	}
}

// everyToken damages every token of a statement in turn.
func everyToken(c *pbt.Case) {
	o := options(c)
	if o.MaxDepth > 2 {
		o.MaxDepth = 2
	}
	b := gen.New(c, o)
	b.Statement()
	src := gen.Canonical(b.In)
	if len(src.Toks) > 60 {
		c.Discard()
	}
	how := c.Weighted(4, 2, 2, 1)
	c.Label([]string{"each token lost", "each token doubled", "neighbours exchanged", "a word before each token"}[how])
	extra := word(c)
	for k, sp := range src.Spans {
		s := src.S
		at := 0 // the parser looks one token ahead
		if k > 1 {
			at = src.Spans[k-2][0]
		}
		switch how {
		case 0:
			s = s[:sp[0]] + " " + s[sp[1]:]
		case 1:
			s = s[:sp[1]] + " " + s[sp[0]:]
		case 2:
			if k+1 == len(src.Spans) {
				continue
			}
			next := src.Spans[k+1]
			s = s[:sp[0]] + s[next[0]:next[1]] + " " + s[sp[0]:sp[1]] + " " + s[next[1]:]
		case 3:
			s = s[:sp[0]] + " " + extra + " " + s[sp[0]:]
		}
		c.Input(s)
		st, err := parse(s)
		if err == nil {
			if formatDropped(s, st) || recorded(s) {
				continue
			}
			if msg := keeps(s, st); msg != "" {
				c.Fail("%s", msg)
			}
			continue
		}
		c.NonTrivial = true
		if msg := wrongError(s, err); msg != "" {
			c.Fail("%s", msg)
		}
		var pe *p.ParseError
		errors.As(err, &pe)
		if up := strings.ToUpper(s); int(pe.Pos) < at && !strings.Contains(up, "INTERVAL") && !strings.Contains(up, "GLOBAL") {
			c.Fail("the text is sound up to offset %d, the error points at %d: %s", at, pe.Pos, oneLine(err))
		}
	}
}

func malformed(c *pbt.Case) {
	switch c.Weighted(9, 4, 3) {
	case 1:
		anyError(c)
		return
	case 2:
		everyToken(c)
		return
	}
	o := options(c)
	o.PartitionID = true
	if o.MaxDepth > 3 {
		o.MaxDepth = 3
	}
	b := gen.New(c, o)
	b.Statement()
	src := gen.Canonical(b.In)
	if c.P(1, 3) {
		src = gen.Noisy(c, b.In)
	}
	d := breakIt(c, b, src)
	// the parser looks one token ahead
	if ts, _ := lex.Tokens(d.text[:d.at]); len(ts) > 1 {
		d.at = ts[len(ts)-1].Start
		if n := ts[len(ts)-1]; n.K == lex.Num && ts[len(ts)-2].S == "." {
			d.at = ts[len(ts)-2].Start
		}
	} else {
		d.at = 0
	}
	// position in a script
	if c.P(1, 3) {
		pre := pbt.Pick(c, []string{"USE a;\n", "\n\n", "SELECT 1;", "-- c\n", "SET a = 1 ;\r\n", "SELECT '日本', `x`;", "SELECT 'a\nb';\n\t"})
		d.text, d.at = pre+d.text, d.at+len(pre)
	}
	if d.must == "" || !strings.HasPrefix(d.must, "unclosed") {
		switch c.Weighted(6, 1, 1, 1) {
		case 1:
			d.text += ";"
		case 2:
			d.text += "\n; SELECT 2"
		case 3:
			d.text += " -- end"
		}
	}
	c.Input(d.text)
	st, err := parse(d.text)
	if err == nil {
		if d.must != "" {
			c.Fail("accepted, but %s; formatted: %q", d.must, formatAll(st))
		}
		if msg := dropped(d.text, st); msg != "" {
			c.Fail("%s; formatted: %q", msg, formatAll(st))
		}
		c.Label("still valid")
		return
	}
	c.NonTrivial = true
	if st != nil {
		c.Fail("%d statements besides the error", len(st))
	}
	if msg := wrongError(d.text, err); msg != "" {
		c.Fail("%s", msg)
	}
	var pe *p.ParseError
	errors.As(err, &pe)
	// behind INTERVAL and GLOBAL the parser tries several readings
	if up := strings.ToUpper(d.text); int(pe.Pos) < d.at && !strings.Contains(up, "INTERVAL") && !strings.Contains(up, "GLOBAL") {
		c.Fail("the text is sound up to offset %d, the error points at %d: %s", d.at, pe.Pos, oneLine(err))
	}
}

func formatAll(st []p.Expr) string {
	var out []string
	for _, n := range st {
		out = append(out, p.Format(n))
	}
	return strings.Join(out, "; ")
}

// wrongError compares an error with the text it was reported for.
func wrongError(s string, err error) string {
	var pe *p.ParseError
	if !errors.As(err, &pe) {
		return fmt.Sprintf("not a structured error: %T %v", err, err)
	}
	if pe.Pos < 0 || int(pe.Pos) > len(s) {
		return fmt.Sprintf("error offset %d in a text of %d bytes", pe.Pos, len(s))
	}
	before := s[:pe.Pos]
	line := strings.Count(before, "\n") + 1
	bol := strings.LastIndexByte(before, '\n') + 1
	if pe.Line != line || pe.Column != int(pe.Pos)-bol+1 {
		return fmt.Sprintf("offset %d is line %d column %d, not %d:%d", pe.Pos, line, int(pe.Pos)-bol+1, pe.Line, pe.Column)
	}
	if pe.Got != nil {
		a, z := int(pe.Got.Pos), int(pe.Got.End)
		if a < 0 || z > len(s) || a > z || s[a:z] != pe.Got.String {
			return fmt.Sprintf("the offending token %q is not what stands at %d-%d", pe.Got.String, a, z)
		}
		if pe.Got.Pos != pe.Pos {
			return fmt.Sprintf("the error points at %d, its token %q stands at %d", pe.Pos, pe.Got.String, pe.Got.Pos)
		}
	}
	if pe.Got == nil {
		if ts, ok := lex.Tokens(s); ok && len(ts) > 0 && ts[len(ts)-1].End > int(pe.Pos) {
			return fmt.Sprintf("the error has no token, but %q stands at %d", ts[len(ts)-1].S, ts[len(ts)-1].Start)
		}
	} else {
		if pe.Keyword != "" && strings.EqualFold(pe.Got.String, pe.Keyword) && pe.Got.Kind == p.TokenKindKeyword {
			return fmt.Sprintf("the error wants the keyword %s where it is: %s", pe.Keyword, oneLine(err))
		}
		for _, k := range pe.Expected {
			if pe.Got.Kind == k {
				return fmt.Sprintf("the error wants a token of the kind it finds: %s", oneLine(err))
			}
		}
	}
	text := err.Error()
	lines := strings.Split(text, "\n")
	eol := strings.IndexByte(s[bol:], '\n')
	src := s[bol:]
	if eol >= 0 {
		src = s[bol : bol+eol]
	}
	src = strings.TrimSuffix(src, "\r")
	if !strings.HasPrefix(text, fmt.Sprintf("line %d:%d ", line, pe.Column)) {
		return fmt.Sprintf("the rendering starts %q instead of with line %d:%d", short(lines[0]), line, pe.Column)
	}
	// message, source line, caret line; the message may hold line breaks
	if !strings.HasSuffix(text, "\n") || len(lines) < 4 {
		return fmt.Sprintf("the rendering is not message, source line and caret: %q", short(text))
	}
	caret, shown := lines[len(lines)-2], lines[len(lines)-3]
	if shown != src {
		return fmt.Sprintf("the rendering shows %q, line %d is %q", short(shown), line, short(src))
	}
	k := strings.IndexByte(caret, '^')
	if k != pe.Column-1 || strings.Trim(caret[:k], " ") != "" || strings.Trim(caret[k:], "^") != "" {
		return fmt.Sprintf("the caret line %q does not mark column %d", short(caret), pe.Column)
	}
	width := 1
	if pe.Got != nil && len(pe.Got.String) > 1 {
		width = len(pe.Got.String)
	}
	if len(caret)-k != width {
		return fmt.Sprintf("%d carets for the token %q", len(caret)-k, pe.Got)
	}
	return ""
}

// dropped says which name, number or string of an accepted text is missing in
// what the statements are formatted as.
func dropped(s string, st []p.Expr) string {
	ts, ok := lex.Tokens(s)
	if !ok {
		return "accepted, but it holds text that is no token"
	}
	have := map[string]int{}
	for _, n := range st {
		out, _ := lex.Tokens(p.Format(n))
		for _, t := range out {
			have[strings.ToUpper(t.S)]++
		}
	}
	for _, t := range ts {
		if t.K == lex.Op {
			continue
		}
		k := strings.ToUpper(t.S)
		if have[k] == 0 && !noise[k] {
			return fmt.Sprintf("accepted, but %s is lost", t.S)
		}
		have[k]--
	}
	return ""
}

// noise words are printed differently: ASC, DESC, DESCRIBE, SET; the ID of a
// partition and ATTACH are known losses.
var noise = map[string]bool{"ASCENDING": true, "DESCENDING": true, "DESC": true, "SETTINGS": true, "ID": true, "ATTACH": true}

// breakIt damages one place of a statement.
func breakIt(c *pbt.Case, b *gen.B, src *gen.Src) damaged {
	toks := src.Toks
	s := src.S
	cut := func(i, j int, with string) damaged {
		return damaged{text: s[:i] + with + s[j:], at: i}
	}
	find := func(ok func(t gen.Tok) bool) int {
		var idx []int
		for i, t := range toks {
			if ok(t) {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return -1
		}
		return pbt.Pick(c, idx)
	}
	edge := func() int { return src.Spans[c.Intn(len(toks))][c.Intn(2)] }
	isOp := func(set string) func(t gen.Tok) bool {
		return func(t gen.Tok) bool { return t.K == gen.Op && strings.Contains(" "+set+" ", " "+t.S+" ") }
	}
	var d damaged
	what := c.Weighted(3, 3, 3, 3, 3, 3, 2, 3, 2, 3, 3, 2, 2)
	c.Label([]string{"cut off", "bracket lost", "bracket added", "bracket exchanged", "left open", "no token", "bad number", "operator added", "comma added", "operand lost", "tokens damaged", "cut mid-token", "AS lost"}[what])
	switch what {
	case 0:
		i := src.Spans[c.Intn(len(toks))][1]
		d = cut(i, len(s), "")
	case 11:
		i := c.Intn(len(s))
		d = cut(i, len(s), "")
		d.at = 0
		for _, sp := range src.Spans {
			if sp[1] <= i {
				d.at = sp[1]
			}
		}
	case 1:
		k := find(isOp("( ) [ ] { }"))
		if k < 0 {
			c.Discard()
		}
		d = cut(src.Spans[k][0], src.Spans[k][1], " ")
	case 2:
		i := edge()
		d = cut(i, i, " "+pbt.Pick(c, []string{")", "(", "]", "[", "}", "{"})+" ")
	case 3:
		k := find(isOp("( ) [ ] { }"))
		if k < 0 {
			c.Discard()
		}
		to := pbt.Pick(c, []string{")", "(", "]", "[", "}", "{"})
		if to == toks[k].S {
			c.Discard()
		}
		d = cut(src.Spans[k][0], src.Spans[k][1], to)
	case 4:
		if k := find(func(t gen.Tok) bool { return strings.ContainsAny(t.S[:1], "'`\"") }); k >= 0 && c.Bool() {
			d = cut(src.Spans[k][1]-1, src.Spans[k][1], "")
			d.at = src.Spans[k][0]
		} else {
			i := edge()
			d = cut(i, i, " "+pbt.Pick(c, []string{"'", "`", "\"", "/*", "/* *", "'\\", "'\\'", "''' "}))
		}
	case 5:
		i := edge()
		d = cut(i, i, " "+pbt.Pick(c, []string{"#", "\\", "~", "^", "&", "|", "!", "\x00", "\x7f", "é", "→", "\xff", "\xe6\x97", "“", "&&", "😀", "\ufeff", "\u200b"})+" ")
	case 6:
		k := find(func(t gen.Tok) bool { return t.K == gen.Num })
		if k < 0 {
			c.Discard()
		}
		d = cut(src.Spans[k][0], src.Spans[k][1], badNumber(c))
	case 7:
		k := find(func(t gen.Tok) bool { return isOp("( [ ,")(t) || t.K == gen.Op && infixOnly[t.S] })
		if k < 0 {
			c.Discard()
		}
		i := src.Spans[k][1]
		d = cut(i, i, " "+pbt.Pick(c, []string{"=", "==", "!=", "<>", "<", ">", "<=", ">=", "/", "%", "||", "::", "->"})+" ")
	case 8:
		k := find(isOp("( [ ,"))
		if k < 0 {
			c.Discard()
		}
		i := src.Spans[k][1]
		d = cut(i, i, " ,")
	case 9:
		k := find(func(t gen.Tok) bool { return t.K == gen.Name || t.K == gen.Num || t.K == gen.Str })
		if k < 0 {
			c.Discard()
		}
		d = cut(src.Spans[k][0], src.Spans[k][1], " ")
		// behind a comma the keyword may itself be a name: SELECT a, FROM PREWHERE b
		if k > 0 && toks[k-1].K == gen.KW && !(k > 1 && toks[k-2].S == ",") && needsOperand[strings.ToUpper(toks[k-1].S)] {
			n := ""
			if k+1 < len(toks) {
				n = strings.ToUpper(toks[k+1].S)
			}
			if k+1 == len(toks) || toks[k+1].K == gen.KW && startsClause(toks, k+1) || toks[k+1].K == gen.Op && (n == ")" || n == "," || n == "]") {
				d.must = fmt.Sprintf("nothing stands between %s and %s", toks[k-1].S, n)
			}
		}
	case 12:
		k := find(func(t gen.Tok) bool { return t.Need })
		if k < 0 {
			c.Discard()
		}
		d = cut(src.Spans[k][0], src.Spans[k][1], " ")
		// a reserved word as a name may be read as an operator
		if n := toks[k+1]; n.K == gen.KW || n.S == "(" || n.K == gen.Name && strings.ContainsAny(n.S, "0123456789") {
			d.must = fmt.Sprintf("the %s in front of %s is missing", toks[k].S, n.S)
		}
	case 10:
		toks = damage(c, toks)
		t := gen.Canonical(toks).S
		i := 0
		for i < len(s) && i < len(t) && s[i] == t[i] {
			i++
		}
		d = damaged{text: t}
		// the token the first difference stands in
		for _, sp := range src.Spans {
			if sp[1] < i {
				d.at = sp[1]
			}
		}
	}
	if m := cannotBe(d.text); m != "" {
		d.must = m
	}
	return d
}

// startsClause says whether the word begins a clause: what follows it does not
// allow reading it as a name, as an operator, a keyword or a bracket may.
func startsClause(toks []gen.Tok, i int) bool {
	if !clauseStart[strings.ToUpper(toks[i].S)] || i+1 >= len(toks) {
		return false
	}
	switch t := toks[i+1]; t.K {
	case gen.KW:
		return t.S == "BY" || t.S == "ALL" || t.S == "DISTINCT"
	case gen.Name:
		return strings.ContainsAny(t.S, "0123456789")
	case gen.Num, gen.Str:
		return true
	}
	return false
}

var needsOperand = map[string]bool{"FROM": true, "JOIN": true, "BY": true, "WHERE": true, "PREWHERE": true, "HAVING": true, "AND": true, "OR": true, "WHEN": true, "THEN": true, "ELSE": true, "BETWEEN": true, "LIKE": true, "ILIKE": true}
var clauseStart = map[string]bool{"FROM": true, "WHERE": true, "GROUP": true, "HAVING": true, "ORDER": true, "LIMIT": true, "UNION": true, "SETTINGS": true, "FORMAT": true, "AND": true, "OR": true, "THEN": true, "WHEN": true, "USING": true, "PREWHERE": true, "EXCEPT": true}

// infixOnly are the operators that need an operand on both sides.
var infixOnly = map[string]bool{"=": true, "==": true, "!=": true, "<>": true, "<": true, ">": true, "<=": true, ">=": true, "/": true, "%": true, "||": true, "::": true, "->": true, ".": true}

var validOps = map[string]bool{"(": true, ")": true, "[": true, "]": true, "{": true, "}": true, ",": true, ";": true, "?": true, ":": true, "*": true, "+": true, "-": true, "@": true}

// cannotBe gives a reason why no statement can be written like this, judging by
// tokens alone, or "".
func cannotBe(s string) string {
	ts, ok := lex.Tokens(s)
	if !ok {
		return "unclosed or no token: " + fmt.Sprintf("%.40q", ts[len(ts)-1].S)
	}
	var open []string
	for i, t := range ts {
		if t.K != lex.Op {
			continue
		}
		if !infixOnly[t.S] && !validOps[t.S] {
			return fmt.Sprintf("%q is no token", t.S)
		}
		switch t.S {
		case "(", "[", "{":
			open = append(open, t.S)
		case ")", "]", "}":
			if len(open) == 0 || open[len(open)-1]+t.S != "()" && open[len(open)-1]+t.S != "[]" && open[len(open)-1]+t.S != "{}" {
				return fmt.Sprintf("the %q at %d closes nothing", t.S, t.Start)
			}
			open = open[:len(open)-1]
		case ";":
			if len(open) > 0 {
				return fmt.Sprintf("%q is not closed", open[len(open)-1])
			}
		}
		next := lex.Tok{}
		if i+1 < len(ts) {
			next = ts[i+1]
		}
		ends := next.S == "" || next.K == lex.Op && strings.Contains(") ] } , ;", next.S)
		number := next.S == "." && i+2 < len(ts) && ts[i+2].K == lex.Num
		switch {
		case infixOnly[t.S] && ends:
			return fmt.Sprintf("nothing follows the %s at %d", t.S, t.Start)
		case (infixOnly[t.S] || t.S == "(" || t.S == "[" || t.S == ",") && next.K == lex.Op && infixOnly[next.S] && !number:
			return fmt.Sprintf("%s %s at %d", t.S, next.S, t.Start)
		case (t.S == "(" || t.S == "[" || t.S == ",") && next.K == lex.Op && next.S == ",":
			return fmt.Sprintf("%s %s at %d", t.S, next.S, t.Start)
		}
	}
	if len(open) > 0 {
		return fmt.Sprintf("%q is not closed", open[len(open)-1])
	}
	return ""
}
