package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/corpus"
	"verif/harness/gen"
	"verif/harness/pbt"
)

var cli string // the command-line tool

func init() {
	register(&Check{
		ID: "C15", Quick: 40000, Thorough: 400000,
		Rule: "one input (a script of random statements, a file of the project's test suite, or a damaged one, one in 150 grown to as much as 300 KB) given to the built tool as argument or file, in one output mode; standard output, standard error and the exit status are compared with what the library returns; non-trivial: the input holds a statement; distinct by text and arguments",
		Prepare: func() error {
			cli = os.Getenv("VERIF_CLI")
			if cli == "" {
				return errors.New("VERIF_CLI is not set")
			}
			_, err := os.Stat(cli)
			return err
		},
		Run: func(c *pbt.Case) {
			var s string
			switch c.Weighted(5, 2, 3, 1) {
			case 0:
				s = script(c)
			case 1:
				s = pbt.Pick(c, corpus.All).SQL
			case 2:
				if c.Bool() {
					s = damageBytes(c, join(c, statementTokens(c)))
				} else {
					s = join(c, damageTokens(c, statementTokens(c)))
				}
			case 3:
				s = pbt.Pick(c, []string{"", " ", ";", "\n", "-- c", "/* c */", ";;", "SELECT '<&>\u2028%s%d'", "SELECT 1 -- %s\n;SELECT `%v`", "\ufeffSELECT 1", "SELECT \"a\tb\"", "SELECT '\xff'", "SELECT 'a\r\nb'"})
			}
			if c.P(1, 150) {
				s = large(c, s)
				c.Label("large input")
			}
			mode := c.Intn(4)
			var args []string
			flag := func(name string) {
				args = append(args, pbt.Pick(c, []string{"-" + name, "--" + name, "-" + name + "=true"}))
			}
			byFile := c.Bool() || strings.HasPrefix(s, "-") || strings.Contains(s, "\x00") || len(s) > 100000
			file := func() {
				f, err := os.CreateTemp("", "c15-*.sql")
				if err != nil {
					panic(err)
				}
				f.WriteString(s)
				f.Close()
				if c.Bool() {
					args = append(args, "-f", f.Name())
				} else {
					args = append(args, "-f="+f.Name())
				}
			}
			first := c.Bool()
			if byFile && first {
				file()
			}
			for i, name := range []string{"format", "beautify"} {
				if mode&(i+1) != 0 {
					flag(name)
				} else if c.P(1, 20) {
					args = append(args, "-"+name+"=false")
				}
			}
			if byFile && !first {
				file()
			}
			for _, a := range args {
				if i := strings.Index(a, os.TempDir()); i >= 0 {
					defer os.Remove(a[i:])
				}
			}
			if !byFile {
				if len(args) > 0 && c.P(1, 4) {
					args = append(args, "--")
				}
				args = append(args, s)
			}
			c.Label([]string{"json", "format", "beautify", "format and beautify"}[mode])
			if byFile {
				c.Label("file")
			} else {
				c.Label("argument")
			}
			if len(s) < 20000 {
				c.Input(s)
			} else {
				c.Input(fmt.Sprintf("%.200s ... (%d bytes)", s, len(s)))
			}
			shown := append([]string{}, args...)
			for i := range shown {
				if strings.Contains(shown[i], "c15-") {
					shown[i] = filepath.Dir(shown[i]) + "/FILE"
				}
			}
			c.Input(strings.Join(shown, " "))

			var want strings.Builder
			st, err := parse(s)
			c.NonTrivial = len(st) > 0 || err != nil
			switch {
			case err != nil:
				c.Label("rejected")
			case mode == 0:
				j, err := json.MarshalIndent(st, "", "  ")
				if err != nil {
					c.Discard()
				}
				want.Write(j)
				want.WriteByte('\n')
			default:
				for _, n := range st {
					if mode&2 != 0 {
						f := p.NewFormatter()
						f.WithBeautify()
						f.WriteExpr(n)
						want.WriteString(f.String())
					} else {
						want.WriteString(p.Format(n))
					}
					want.WriteByte('\n')
				}
			}
			var out, errOut bytes.Buffer
			cmd := exec.Command(cli, args...)
			cmd.Stdout, cmd.Stderr = &out, &errOut
			rerr := cmd.Run()
			var ee *exec.ExitError
			if rerr != nil && !errors.As(rerr, &ee) {
				panic(rerr)
			}
			if err != nil {
				if rerr == nil {
					c.Fail("the tool succeeds on %q, the library says %s", short(s), oneLine(err))
				}
				if ee.ExitCode() < 0 || strings.Contains(errOut.String(), "goroutine ") {
					c.Fail("the tool crashes: %s", short(errOut.String()))
				}
				if out.Len() > 0 {
					c.Fail("the tool prints %q for a rejected input", short(out.String()))
				}
				if !strings.Contains(errOut.String(), err.Error()) {
					c.Fail("the tool reports %q, the library %q", short(errOut.String()), short(err.Error()))
				}
				return
			}
			if rerr != nil {
				c.Fail("the tool fails (%v): %s", rerr, short(errOut.String()))
			}
			if errOut.Len() > 0 {
				c.Fail("the tool writes %q to standard error", short(errOut.String()))
			}
			if out.String() != want.String() {
				c.Fail("the tool prints %q, the library gives %q", short(diffFrom(out.String(), want.String())), short(diffFrom(want.String(), out.String())))
			}
		},
	})
}

// script writes one to four random statements.
func script(c *pbt.Case) string {
	var sb strings.Builder
	n := c.Weighted(0, 5, 2, 1)
	for i := 0; i < n; i++ {
		b, _ := build(c)
		if i > 0 {
			sb.WriteString(pbt.Pick(c, []string{";", ";\n", " ; ", ";;\n\n", ";\n-- c\n"}))
		}
		if c.Bool() {
			sb.WriteString(gen.Canonical(b.In).S)
		} else {
			sb.WriteString(gen.Noisy(c, b.In).S)
		}
	}
	sb.WriteString(pbt.Pick(c, []string{"", ";", "\n", ";\n", " -- end"}))
	return sb.String()
}

// large makes a large input out of a small one, with long lines or many lines.
func large(c *pbt.Case, s string) string {
	n := c.Range(1, 300000)
	for strings.HasSuffix(strings.TrimRight(s, " \n\t"), ";") {
		s = strings.TrimSuffix(strings.TrimRight(s, " \n\t"), ";")
	}
	sep := pbt.Pick(c, []string{"\n;", "\n;\n"})
	switch c.Intn(5) {
	case 0:
		return strings.Repeat(s+sep, 1+n/4/(len(s)+2))
	case 1:
		return s + "\n/*" + strings.Repeat("x ", n/2) + "*/;" + s
	case 2:
		return "-- " + strings.Repeat("-", n) + "\n" + s
	case 3:
		return s + "\n; SELECT '" + strings.Repeat("é ", n/3) + "';" + s
	default:
		return s + sep + "SELECT a" + strings.Repeat(", a", n/8) + sep + s
	}
}

// diffFrom cuts off most of what a and b have in common in front.
func diffFrom(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 40 {
		return "..." + a[i-40:]
	}
	return a
}
