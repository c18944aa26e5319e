// Package lex is an independent reference tokenizer for ClickHouse SQL as this
// project defines it. It shares no code with the code under test.
package lex

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

type Kind int

const (
	Word   Kind = iota
	Quoted      // `x` or "x"
	Num
	Str
	Op
	Bad
)

type Tok struct {
	K          Kind
	S          string // raw text
	Start, End int
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isHex(c byte) bool {
	return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}
func isWordStart(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isWordPart(c byte) bool { return isWordStart(c) || isDigit(c) }

var twoOps = map[string]bool{"||": true, "<>": true, "==": true, "<=": true, ">=": true, "!=": true, "->": true, "::": true}

// Tokens splits s; ok is false when some text is no token.
func Tokens(s string) (toks []Tok, ok bool) {
	i := 0
	n := len(s)
	add := func(k Kind, j int) {
		toks = append(toks, Tok{k, s[i:j], i, j})
		i = j
	}
	for i < n {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f':
			i++
		case c >= 0x80:
			r, w := utf8.DecodeRuneInString(s[i:])
			if !unicode.IsSpace(r) {
				add(Bad, n)
				return toks, false
			}
			i += w
		case strings.HasPrefix(s[i:], "--"):
			for i < n && s[i] != '\n' && s[i] != '\r' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				add(Bad, n)
				return toks, false
			}
			i += j + 4
		case c == '\'':
			j := i + 1
			closed := false
			for j < n {
				if s[j] == '\\' && j+1 < n {
					j += 2
					continue
				}
				if s[j] == '\'' {
					if j+1 < n && s[j+1] == '\'' {
						j += 2
						continue
					}
					closed = true
					j++
					break
				}
				j++
			}
			if !closed {
				add(Bad, n)
				return toks, false
			}
			add(Str, j)
		case c == '`' || c == '"':
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				add(Bad, n)
				return toks, false
			}
			add(Quoted, i+1+j+1)
		case isDigit(c):
			j := i
			if c == '0' && i+1 < n && s[i+1] == 'x' {
				j += 2
				k := j
				for j < n && isHex(s[j]) {
					j++
				}
				if j == k {
					add(Bad, n)
					return toks, false
				}
			} else {
				for j < n && isDigit(s[j]) {
					j++
				}
				if j < n && s[j] == '.' {
					j++
					for j < n && isDigit(s[j]) {
						j++
					}
				}
				if j < n && (s[j] == 'e' || s[j] == 'E') {
					k := j + 1
					if k < n && (s[k] == '+' || s[k] == '-') {
						k++
					}
					if k >= n || !isDigit(s[k]) {
						add(Bad, n)
						return toks, false
					}
					for k < n && isDigit(s[k]) {
						k++
					}
					j = k
				}
			}
			if j < n && (isWordPart(s[j]) || s[j] == '.') {
				add(Bad, n)
				return toks, false
			}
			add(Num, j)
		case isWordStart(c):
			j := i + 1
			for j < n && isWordPart(s[j]) {
				j++
			}
			add(Word, j)
		case i+1 < n && twoOps[s[i:i+2]]:
			add(Op, i+2)
		default:
			add(Op, i+1)
		}
	}
	return toks, true
}

// Glues reports whether writing b right after a changes the token split.
func Glues(a, b string) bool {
	t, ok := Tokens(a + b)
	if !ok || len(t) != 2 || t[0].S != a || t[1].S != b {
		return true
	}
	// a sign written against a number may be read as part of it
	if (a == "-" || a == "+") && t[1].K == Num {
		return true
	}
	return false
}
