package checks

import (
	"strings"

	"verif/harness/pbt"
)

func digits(c *pbt.Case, lo, hi int) string {
	n := c.Range(lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + c.Intn(10))
	}
	return string(b)
}

// number draws the spelling of an unsigned number without leading dot.
func number(c *pbt.Case) string {
	switch c.Weighted(3, 2, 1, 2, 2, 2) {
	case 0:
		return digits(c, 1, 3)
	case 1:
		return digits(c, 1, 45)
	case 2:
		n := c.Range(1, 20)
		s := ""
		for i := 0; i < n; i++ {
			s += string("0123456789abcdefABCDEF"[c.Intn(22)])
		}
		return "0x" + s
	case 3:
		return digits(c, 1, 20) + "." + digits(c, 0, 20)
	case 4:
		return digits(c, 1, 10) + exponent(c)
	default:
		return digits(c, 1, 10) + "." + digits(c, 0, 10) + exponent(c)
	}
}

func exponent(c *pbt.Case) string {
	return pbt.Pick(c, []string{"e", "E"}) + pbt.Pick(c, []string{"", "+", "-"}) + digits(c, 1, 4)
}

// badNumber draws text that starts like a number and is none.
func badNumber(c *pbt.Case) string {
	switch c.Intn(9) {
	case 0:
		return digits(c, 1, 5) + pbt.Pick(c, []string{"e", "E", "e+", "E-", ".e", ".5e", "e-"})
	case 1:
		return "0x"
	case 2:
		return digits(c, 1, 3) + "." + digits(c, 0, 3) + "." + digits(c, 0, 3)
	case 3:
		return digits(c, 1, 3) + pbt.Pick(c, []string{"a", "ab", "_", "x", "g1", "$", "_0", "ee"})
	case 4:
		return "0x" + pbt.Pick(c, []string{"g", "1g", "F_", "z9", "1.5", "ax"})
	case 5:
		return digits(c, 1, 3) + exponent(c) + pbt.Pick(c, []string{".5", "e5", ".", "a", "_"})
	case 6:
		return digits(c, 1, 3) + "." + digits(c, 1, 2) + pbt.Pick(c, []string{"x", "_", "e", "a1"})
	case 7:
		return "0" + pbt.Pick(c, []string{"X1", "b01", "o7", "xx1"})
	default:
		return digits(c, 1, 2) + ".." + digits(c, 0, 2)
	}
}

// stringBody draws the raw text between single quotes.
func stringBody(c *pbt.Case) string {
	var sb strings.Builder
	n := c.Weighted(1, 3, 2, 2)
	for i := 0; i < n*3; i++ {
		switch c.Weighted(4, 3, 2, 3, 2, 1) {
		case 0:
			sb.WriteByte("abcXYZ019 _"[c.Intn(11)])
		case 1:
			sb.WriteString(pbt.Pick(c, []string{"''", "''''", `\'`, `\\`, `\n`, `\"`, "\\`", `\x00`, `\%`, "\\\n", `\\\'`}))
		case 2:
			b := byte(c.Intn(256))
			if b == '\'' || b == '\\' {
				b = 'q'
			}
			sb.WriteByte(b)
		case 3:
			sb.WriteString(pbt.Pick(c, []string{"--", "/*", "*/", ";", "`", "\"", "(", ")", "{", "}", ",", "select", " FROM ", "\n", "\r\n", "\t", "\u00a0", "\\t", "?", ":", "{p:Int8}"}))
		case 4:
			sb.WriteString(pbt.Pick(c, []string{"é", "日本語", "😀", "\xff\xfe", "\x00", "\u2028", "ñ"}))
		case 5:
			sb.WriteByte('\\')
			sb.WriteByte(byte(1 + c.Intn(255)))
		}
	}
	return sb.String()
}

// quotedBody draws the text between quotes q of an identifier.
func quotedBody(c *pbt.Case, q string) string {
	s := stringBody(c)
	if c.P(1, 3) {
		s = pbt.Pick(c, []string{"select", "FROM", "null", "end", "interval", "a.b", "1", "0x", "*", "distinct", "not", "array", "cast"})
	}
	s = strings.ReplaceAll(s, q, "")
	if s == "" {
		s = "x"
	}
	return s
}

// plainName draws an unquoted identifier that is no keyword.
func plainName(c *pbt.Case) string {
	first := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$"
	rest := first + "0123456789"
	var sb strings.Builder
	sb.WriteByte(first[c.Intn(len(first))])
	n := c.Intn(12)
	for i := 0; i < n; i++ {
		sb.WriteByte(rest[c.Intn(len(rest))])
	}
	sb.WriteByte(rest[len(rest)-1-c.Intn(10)]) // no keyword ends in a digit
	return sb.String()
}
