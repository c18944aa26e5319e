package checks

import (
	"verif/harness/gen"
	"verif/harness/pbt"
)

// damage changes a token sequence a little; it often becomes invalid.
func damage(c *pbt.Case, toks []gen.Tok) []gen.Tok {
	out := append([]gen.Tok{}, toks...)
	n := c.Range(1, 2)
	for k := 0; k < n && len(out) > 1; k++ {
		i := c.Intn(len(out))
		switch c.Intn(5) {
		case 0: // delete
			out = append(out[:i:i], out[i+1:]...)
		case 1: // double
			out = append(out[:i+1:i+1], out[i:]...)
		case 2: // swap
			if i+1 < len(out) {
				out[i], out[i+1] = out[i+1], out[i]
			}
		case 3: // cut off
			out = out[:i+1]
		case 4: // foreign token
			t := pbt.Pick(c, foreign)
			out = append(out[:i:i], append([]gen.Tok{t}, out[i:]...)...)
		}
	}
	return out
}

var foreign = []gen.Tok{
	{S: ",", K: gen.Op}, {S: "(", K: gen.Op}, {S: ")", K: gen.Op}, {S: "[", K: gen.Op}, {S: "]", K: gen.Op}, {S: "{", K: gen.Op}, {S: "}", K: gen.Op},
	{S: "=", K: gen.Op}, {S: "*", K: gen.Op}, {S: "->", K: gen.Op}, {S: "::", K: gen.Op},
	{S: "SELECT", K: gen.KW}, {S: "FROM", K: gen.KW}, {S: "AS", K: gen.KW}, {S: "ON", K: gen.KW}, {S: "NOT", K: gen.KW}, {S: "BY", K: gen.KW}, {S: "TABLE", K: gen.KW},
	{S: "x", K: gen.Name}, {S: "`q`", K: gen.Name}, {S: "'s'", K: gen.Str}, {S: "7", K: gen.Num},
}
