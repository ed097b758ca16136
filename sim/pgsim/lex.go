// Package pgsim is a small in-memory PostgreSQL: it executes the repository's
// own SQL text and migrations with MVCC, row locks, constraints and triggers.
// It is single threaded: the simulator calls it one statement at a time.
package pgsim

import (
	"fmt"
	"strings"
)

type tokKind uint8

const (
	tEOF tokKind = iota
	tIdent
	tQuoted
	tNum
	tStr
	tParam
	tOp
)

type token struct {
	k   tokKind
	s   string
	pos int
}

func lex(src string) ([]token, error) {
	var out []token
	i, n := 0, len(src)
	isIdStart := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 }
	isId := func(c byte) bool { return isIdStart(c) || c >= '0' && c <= '9' || c == '$' }
	for i < n {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '-' && i+1 < n && src[i+1] == '-':
			for i < n && src[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < n && src[i+1] == '*':
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 4
		case c == '\'' || (c == 'E' || c == 'e') && i+1 < n && src[i+1] == '\'':
			esc := false
			if c != '\'' {
				esc = true
				i++
			}
			start := i
			i++
			var b strings.Builder
			for {
				if i >= n {
					return nil, fmt.Errorf("unterminated string")
				}
				if src[i] == '\'' {
					if i+1 < n && src[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				if esc && src[i] == '\\' && i+1 < n {
					i++
					switch src[i] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[i])
					}
					i++
					continue
				}
				b.WriteByte(src[i])
				i++
			}
			out = append(out, token{tStr, b.String(), start})
		case c == '"':
			j := strings.IndexByte(src[i+1:], '"')
			if j < 0 {
				return nil, fmt.Errorf("unterminated identifier")
			}
			out = append(out, token{tQuoted, src[i+1 : i+1+j], i})
			i += j + 2
		case c == '$' && i+1 < n && src[i+1] >= '0' && src[i+1] <= '9':
			j := i + 1
			for j < n && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, token{tParam, src[i+1 : j], i})
			i = j
		case c == '$':
			j := strings.IndexByte(src[i+1:], '$')
			if j < 0 {
				return nil, fmt.Errorf("bad $")
			}
			tag := src[i : i+j+2]
			e := strings.Index(src[i+len(tag):], tag)
			if e < 0 {
				return nil, fmt.Errorf("unterminated %s", tag)
			}
			out = append(out, token{tStr, src[i+len(tag) : i+len(tag)+e], i})
			i += 2*len(tag) + e
		case isIdStart(c):
			j := i
			for j < n && isId(src[j]) {
				j++
			}
			out = append(out, token{tIdent, strings.ToLower(src[i:j]), i})
			i = j
		case c >= '0' && c <= '9' || c == '.' && i+1 < n && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < n && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			if j < n && (src[j] == 'e' || src[j] == 'E') {
				j++
				if j < n && (src[j] == '+' || src[j] == '-') {
					j++
				}
				for j < n && src[j] >= '0' && src[j] <= '9' {
					j++
				}
			}
			out = append(out, token{tNum, src[i:j], i})
			i = j
		default:
			op := ""
			for _, o := range []string{"->>", "#>>", "!~*", "::", "->", "#>", "||", "<=", ">=", "<>", "!=", ":=", "@>", "<@", "?|", "?&", "&&", "~*", "!~", "=>"} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				if !strings.ContainsRune("+-*/%^=<>(),.;[]?~@#&|:", rune(c)) {
					return nil, fmt.Errorf("unexpected character %q at %d", c, i)
				}
				op = string(c)
			}
			out = append(out, token{tOp, op, i})
			i += len(op)
		}
	}
	out = append(out, token{tEOF, "", n})
	return out, nil
}
