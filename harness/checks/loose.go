package checks

import (
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/corpus"
	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

// loose draws a text the parser accepts although no grammar rule of the
// generator led to it.
func loose(c *pbt.Case) (string, []p.Expr) {
	for try := 0; try < 8; try++ {
		s := anyText(c)
		st, err := parse(s)
		if err == nil && len(st) > 0 && !recorded(s) {
			c.Label("accepted by chance")
			c.Input(s)
			return s, st
		}
	}
	c.Discard()
	return "", nil
}

// anyText draws a text that may or may not be valid: a statement or a file of
// the test suite with a few damaged tokens, two spliced statements, or a
// sequence of tokens.
func anyText(c *pbt.Case) string {
	var ts []string
	switch c.Weighted(6, 6, 2, 2, 1, 4) {
	case 0:
		ts = nudge(c, statementTokens(c))
	case 1:
		e := pbt.Pick(c, corpus.Small).SQL
		if c.P(1, 5) {
			return e
		}
		ts = nudge(c, tokensOf(e))
	case 2:
		a, b := statementTokens(c), statementTokens(c)
		if c.Bool() {
			a = tokensOf(pbt.Pick(c, corpus.Small).SQL)
		}
		i, j := c.Intn(len(a)+1), c.Intn(len(b)+1)
		ts = append(append([]string{}, a[:i]...), b[j:]...)
	case 3:
		ts = soup(c)
	case 4:
		ts = phrase(c)
	case 5:
		ts = repeated(c, statementTokens(c))
	}
	return spaced(c, ts)
}

// phrase draws a short statement around a phrase of keywords one of which is
// missing, doubled, misplaced or taken from another phrase.
func phrase(c *pbt.Case) []string {
	some := func() []string { return strings.Fields(pbt.Pick(c, gen.Privileges())) }
	ws := some()
	i := c.Intn(len(ws))
	switch c.Intn(5) {
	case 0:
		ws = append(ws[:i:i], ws[i+1:]...)
	case 1:
		ws = insertAt(ws, i, ws[i:i+1])
	case 2:
		ws[i] = pbt.Pick(c, some())
	case 3:
		ws = insertAt(ws, c.Intn(len(ws)+1), []string{pbt.Pick(c, some())})
	case 4:
		j := c.Intn(len(ws))
		ws[i], ws[j] = ws[j], ws[i]
	}
	switch c.Weighted(6, 2, 2) {
	case 1:
		if len(ws) > 0 && ws[0] == "SYSTEM" {
			return append(ws, "a")
		}
		return append(append([]string{"SYSTEM"}, ws...), "a")
	case 2:
		return append(ws, "a")
	}
	if len(ws) > 0 && c.P(1, 4) {
		ws = append(append(ws, ","), some()...)
	}
	return append(append([]string{"GRANT"}, ws...), "ON", "*", ".", "*", "TO", "a")
}

// pieces are the tokens of a text, a sign or a dot together with the number it
// touches.
func pieces(s string) (out []string, ok bool) {
	ts, ok := lex.Tokens(s)
	for i, t := range ts {
		if i > 0 && t.K == lex.Num && t.Start == ts[i-1].End && (ts[i-1].S == "-" || ts[i-1].S == "+" || ts[i-1].S == ".") {
			out[len(out)-1] += t.S
			continue
		}
		out = append(out, t.S)
	}
	return out, ok
}

// respace writes tokens with other white space and comments between them.
func respace(c *pbt.Case, ts []string) string {
	var sb strings.Builder
	add := func(must bool, prev string) {
		t := gen.Trivia(c, must)
		if strings.HasPrefix(t, "-") && strings.HasSuffix(prev, "-") {
			t = " " + t // --- would start the comment one character early
		}
		sb.WriteString(t)
	}
	add(false, "")
	for i, t := range ts {
		if i > 0 {
			p := ts[i-1]
			sign := strings.HasSuffix(p, "-") || strings.HasSuffix(p, "+") || strings.HasSuffix(p, ".")
			switch {
			case sign || lex.Glues(ts[i-1], t):
				add(true, ts[i-1])
			case c.P(1, 3):
			default:
				add(false, ts[i-1])
			}
		}
		sb.WriteString(t)
	}
	if len(ts) > 0 {
		add(false, ts[len(ts)-1])
	}
	return sb.String()
}

// nudge changes one to three tokens.
func nudge(c *pbt.Case, ts []string) []string {
	out := append([]string{}, ts...)
	for k := c.Weighted(6, 2, 1) + 1; k > 0 && len(out) > 0; k-- {
		i := c.Intn(len(out))
		switch c.Weighted(4, 1, 1, 3, 4, 1, 3, 1) {
		case 0: // delete
			out = append(out[:i:i], out[i+1:]...)
		case 1: // double
			out = append(out[:i+1:i+1], out[i:]...)
		case 2: // swap neighbours
			if i+1 < len(out) {
				out[i], out[i+1] = out[i+1], out[i]
			}
		case 3: // foreign token
			out = append(out[:i:i], append([]string{word(c)}, out[i:]...)...)
		case 4: // other token
			out[i] = word(c)
		case 5: // delete a stretch
			j := i + c.Intn(min(len(out)-i, 8)+1)
			out = append(out[:i:i], out[j:]...)
		case 6: // repeat a stretch there or further on
			if c.P(2, 3) {
				i = capsWord(out, i)
			}
			j := stretch(c, out, i)
			to := j
			if c.P(1, 3) {
				to += c.Intn(len(out) - j + 1)
			}
			out = insertAt(out, to, out[i:j])
		case 7: // move a stretch
			if c.P(2, 3) {
				i = capsWord(out, i)
			}
			j := stretch(c, out, i)
			part := append([]string{}, out[i:j]...)
			out = append(out[:i:i], out[j:]...)
			out = insertAt(out, c.Intn(len(out)+1), part)
		}
	}
	return out
}

// capsWords lists the upper-case words behind the first token.
func capsWords(ts []string) (out []int) {
	for i, w := range ts {
		if i > 0 && w[0] >= 'A' && w[0] <= 'Z' && w == strings.ToUpper(w) {
			out = append(out, i)
		}
	}
	return out
}

// repeated writes one clause of a statement twice.
func repeated(c *pbt.Case, ts []string) []string {
	caps := capsWords(ts)
	if len(caps) == 0 {
		return ts
	}
	i := pbt.Pick(c, caps)
	j := clause(ts, i, c.Weighted(4, 2, 1))
	to := j
	for k := c.Weighted(3, 1, 1); k > 0 && to < len(ts); k-- {
		to = clause(ts, to, 0)
	}
	return insertAt(ts, to, ts[i:j])
}

// everyDamage calls f for the texts that result from writing a clause twice
// (there or behind one of the next two clauses), from leaving a clause or a
// token out and from exchanging neighbours, the last two in short texts only.
func everyDamage(ts []string, f func(ts []string)) {
	cut := func(i, j int) { f(append(append([]string{}, ts[:i]...), ts[j:]...)) }
	for _, i := range capsWords(ts) {
		last := 0
		for words := 0; words < 3; words++ {
			j := clause(ts, i, words)
			if j == last {
				break
			}
			last = j
			cut(i, j)
			to := j
			for k := 0; k < 3; k++ {
				f(insertAt(ts, to, ts[i:j]))
				if to == len(ts) {
					break
				}
				to = clause(ts, to, 0)
			}
		}
	}
	if len(ts) > 40 {
		return
	}
	for i := range ts {
		cut(i, i+1)
		if i > 0 && ts[i] != ts[i-1] {
			out := append([]string{}, ts...)
			out[i-1], out[i] = out[i], out[i-1]
			f(out)
		}
	}
}

// everyAccepted, once in a while, looks at the damaged texts of a statement that
// the parser accepts.
func everyAccepted(c *pbt.Case, b *gen.B, oneIn int, look func(s string, st []p.Expr) string) {
	if !c.P(1, oneIn) {
		return
	}
	c.Label("every damage")
	everyDamage(tokensIn(b), func(ts []string) {
		s := strings.Join(ts, " ")
		st, err := parse(s)
		if err != nil || len(st) == 0 || recorded(s) {
			return
		}
		if msg := look(s, st); msg != "" {
			c.Input(s)
			c.Fail("%s", msg)
		}
	})
}

// stretch draws the end of a stretch that starts at i: often the place where the
// next clause seems to begin.
func stretch(c *pbt.Case, ts []string, i int) int {
	if c.Bool() {
		return i + c.Intn(min(len(ts)-i, 8)) + 1
	}
	return clause(ts, i, c.Weighted(4, 2, 1))
}

// clause finds the end of a clause that starts at i and has some more upper-case
// words in it.
func clause(ts []string, i, words int) int {
	depth := 0
	j := i + 1
	for ; j < len(ts); j++ {
		switch ts[j] {
		case "(", "[", "{":
			depth++
			continue
		case ")", "]", "}":
			depth--
		}
		if depth < 0 {
			break
		}
		if w := ts[j]; depth == 0 && w[0] >= 'A' && w[0] <= 'Z' && w == strings.ToUpper(w) {
			if words == 0 {
				break
			}
			words--
		}
	}
	return j
}

func insertAt(ts []string, i int, part []string) []string {
	out := append([]string{}, ts[:i]...)
	out = append(out, part...)
	return append(out, ts[i:]...)
}

// capsWord finds the nearest upper-case word from i on.
func capsWord(ts []string, i int) int {
	for k := range ts {
		j := (i + k) % len(ts)
		if w := ts[j]; w[0] >= 'A' && w[0] <= 'Z' && w == strings.ToUpper(w) {
			return j
		}
	}
	return i
}

// spaced writes tokens one space apart, except that a sign may touch its number.
func spaced(c *pbt.Case, ts []string) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 {
			sign := (ts[i-1] == "-" || ts[i-1] == "+") && t != "" && t[0] >= '0' && t[0] <= '9'
			if !sign || c.Bool() {
				sb.WriteByte(' ')
			}
		}
		sb.WriteString(t)
	}
	return sb.String()
}

// recorded tells whether a text holds a construct with a recorded finding,
// which the generator avoids as well.
func recorded(s string) bool {
	ts := tokensOf(s)
	limit := false
	for i := 1; i < len(ts); i++ {
		if strings.EqualFold(ts[i-1], "PARTITION") && strings.EqualFold(ts[i], "ID") {
			return true
		}
		// SHOW DATABASES FORMAT `it's`
		if strings.EqualFold(ts[i-1], "FORMAT") && (ts[i][0] == '`' || ts[i][0] == '"') && strings.Contains(strings.ToUpper(s), "SHOW") {
			return true
		}
		// LIMIT a, -1
		limit = limit || strings.EqualFold(ts[i-1], "LIMIT")
		if limit && i+1 < len(ts) && ts[i-1] == "," && (ts[i] == "-" || ts[i] == "+") && ts[i+1][0] >= '0' && ts[i+1][0] <= '9' {
			return true
		}
		// a list that ends in a keyword and a comma
		if ts[i] == "," && clauseWord[strings.ToUpper(ts[i-1])] && (i+1 == len(ts) || ts[i+1] == ";") {
			return true
		}
	}
	return false
}

var clauseWord = map[string]bool{"FROM": true, "WHERE": true, "PREWHERE": true, "GROUP": true, "HAVING": true, "WINDOW": true, "ORDER": true, "LIMIT": true, "OFFSET": true, "SETTINGS": true, "FORMAT": true, "UNION": true, "EXCEPT": true, "INTERSECT": true}

// movedName tells whether a statement that may be printed in another order
// holds a reserved keyword as a name, which that order may put in front of a
// clause it cannot stand in front of: a recorded finding.
func movedName(s string, n p.Expr) bool {
	if inOrder(s, p.Format(n), []p.Expr{n}) {
		return false
	}
	found := false
	p.Walk(n, func(x p.Expr) bool {
		if id, ok := x.(*p.Ident); ok && id.QuoteType == p.Unquoted && reservedWord[strings.ToUpper(id.Name)] {
			found = true
		}
		return true
	})
	return found
}

var reservedWord = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`ALTER AND AS BETWEEN BY CASE CREATE CROSS DESCRIBE DISTINCT DROP ELSE EXCEPT
		EXPLAIN FORMAT FROM GRANT GROUP HAVING ILIKE IN INNER INSERT INTERVAL INTO IS KILL LIKE LIMIT NOT OFFSET ON
		OPTIMIZE OR ORDER PREWHERE RENAME SELECT SETTINGS SHOW SYSTEM THEN TO TRUNCATE UNION USING VALUES WHEN WHERE
		WINDOW WITH CAST EXTRACT DATE TIMESTAMP SUBSTRING TRIM OVERLAY ARRAY TUPLE NULL ASC DESC TTL PARTITION PRIMARY
		SAMPLE ENGINE POPULATE COMMENT CODEC DEFAULT MATERIALIZED EPHEMERAL ALIAS FILL STEP NULLS FIRST LAST OVER`) {
		m[w] = true
	}
	return m
}()
