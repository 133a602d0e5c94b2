package main

import (
	"fmt"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
	"verif/harness/mc"
)

// rtok is a token of the reference tokenizer.
type rtok struct {
	kind token.Type
	text string
	pos  int
	line int
	col  int
}

type status int

const (
	fine   status = iota
	broken        // no tokenisation from here on
	open          // the text format does not settle it
)

func isIdChar(c byte) bool {
	switch {
	case c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
		return true
	}
	for _, x := range []byte("!#$%&'*+-./:<=>?@\\^_`|~") {
		if c == x {
			return true
		}
	}
	return false
}

func isHexDigit(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func isDecDigit(c byte) bool { return c >= '0' && c <= '9' }

// scan gives the length and kind of the token at the start of s.
func scan(s string) (int, token.Type, status) {
	switch c := s[0]; {
	case c == ' ' || c == '\t' || c == '\n' || c == '\r':
		n := 1
		for n < len(s) && (s[n] == ' ' || s[n] == '\t' || s[n] == '\n' || s[n] == '\r') {
			n++
		}
		if n < len(s) && (s[n] == '\f' || s[n] == '\v') {
			return 0, "", open
		}
		return n, token.Whitespace, fine
	case c == '\f' || c == '\v':
		return 0, "", open // not white space in the text format, harmless if taken as such
	case c == '(':
		if len(s) > 1 && s[1] == ';' {
			depth, i := 0, 0
			for i < len(s) {
				switch {
				case i+1 < len(s) && s[i] == '(' && s[i+1] == ';':
					depth++
					i += 2
				case i+1 < len(s) && s[i] == ';' && s[i+1] == ')':
					depth--
					i += 2
					if depth == 0 {
						return i, token.BlockComment, text(s[:i])
					}
				default:
					i++
				}
			}
			return 0, "", broken
		}
		return 1, token.OpenParen, fine
	case c == ')':
		return 1, token.CloseParen, fine
	case c == ';':
		if len(s) < 2 || s[1] != ';' {
			return 0, "", broken
		}
		for i := 2; i < len(s); i++ {
			if s[i] == '\r' {
				return 0, "", open // newer versions end the comment here
			}
			if s[i] == '\n' {
				return i + 1, token.LineComment, text(s[:i])
			}
		}
		return len(s), token.LineComment, text(s)
	case c == '"':
		i := 1
		st := fine
		for i < len(s) {
			switch c := s[i]; {
			case c == '"':
				if st == fine {
					st = text(s[:i])
				}
				return i + 1, token.String, st
			case c == '\\':
				n, ok := escape(s[i:])
				if n == 0 {
					return 0, "", broken
				}
				if !ok {
					st = open // a code point that does not exist
				}
				i += n
			case c < 0x20 || c == 0x7f:
				return 0, "", broken
			default:
				i++
			}
		}
		return 0, "", broken
	case isIdChar(c):
		n := 1
		for n < len(s) && isIdChar(s[n]) {
			n++
		}
		return n, word(s[:n]), fine
	}
	return 0, "", broken
}

// text leaves ill-formed UTF-8 open.
func text(s string) status {
	if utf8.ValidString(s) {
		return fine
	}
	return open
}

// escape gives the length of the escape at the start of s, 0 if there is none.
// ok is false if it denotes no character.
func escape(s string) (n int, ok bool) {
	if len(s) < 2 {
		return 0, false
	}
	switch s[1] {
	case 't', 'n', 'r', '"', '\'', '\\':
		return 2, true
	case 'u':
		if len(s) < 4 || s[2] != '{' {
			return 0, false
		}
		n := digitRun(s[3:], isHexDigit)
		if n == 0 || 3+n >= len(s) || s[3+n] != '}' {
			return 0, false
		}
		v := uint64(0)
		for _, c := range []byte(s[3 : 3+n]) {
			if c == '_' {
				continue
			}
			v = v*16 + uint64(hexVal(c))
			if v > 0x110000 {
				v = 0x110000
			}
		}
		return n + 4, v < 0xd800 || v > 0xdfff && v < 0x110000
	}
	if len(s) >= 3 && isHexDigit(s[1]) && isHexDigit(s[2]) {
		return 3, true
	}
	return 0, false
}

func hexVal(c byte) int {
	switch {
	case c <= '9':
		return int(c - '0')
	case c <= 'F':
		return int(c-'A') + 10
	}
	return int(c-'a') + 10
}

// digitRun is the length of d ('_'? d)* at the start of s.
func digitRun(s string, digit func(byte) bool) int {
	n := 0
	for n < len(s) {
		if digit(s[n]) {
			n++
		} else if s[n] == '_' && n > 0 && n+1 < len(s) && digit(s[n+1]) {
			n += 2
		} else {
			break
		}
	}
	return n
}

// word is the kind of a run of identifier characters.
func word(s string) token.Type {
	switch {
	case s == "module":
		return token.Module
	case s == "component":
		return token.Component
	case s[0] == '$' && len(s) > 1:
		return token.Id
	case isInt(s):
		return token.Integer
	case isFloat(s):
		return token.Float
	}
	return token.Reserved
}

func unsigned(s string) string {
	if s != "" && (s[0] == '+' || s[0] == '-') {
		return s[1:]
	}
	return s
}

func isInt(s string) bool { return isNat(unsigned(s)) }

func isNat(s string) bool {
	if s == "" {
		return false
	}
	if digitRun(s, isDecDigit) == len(s) {
		return true
	}
	return len(s) > 2 && s[:2] == "0x" && digitRun(s[2:], isHexDigit) == len(s)-2
}

func isFloat(s string) bool {
	s = unsigned(s)
	switch s {
	case "inf", "nan", "nan:canonical", "nan:arithmetic":
		return true
	}
	if len(s) > 6 && s[:6] == "nan:0x" {
		return digitRun(s[6:], isHexDigit) == len(s)-6
	}
	digit, exp := isDecDigit, byte('e')
	if len(s) > 2 && s[:2] == "0x" {
		s, digit, exp = s[2:], isHexDigit, 'p'
	}
	n := digitRun(s, digit)
	if n == 0 {
		return false
	}
	s = s[n:]
	if s != "" && s[0] == '.' {
		s = s[1:]
		s = s[digitRun(s, digit):]
	}
	if s != "" && s[0]|0x20 == exp {
		s = unsigned(s[1:])
		n := digitRun(s, isDecDigit)
		return n > 0 && n == len(s)
	}
	return s == ""
}

// tokenize is the reference tokenisation of s up to a broken or open place.
func tokenize(s string) ([]rtok, status) {
	var out []rtok
	pos, line, col := 0, 0, 0
	for pos < len(s) {
		n, k, st := scan(s[pos:])
		if st != fine {
			return out, st
		}
		out = append(out, rtok{k, s[pos : pos+n], pos, line, col})
		for _, c := range []byte(s[pos : pos+n]) {
			if c == '\n' {
				line++
				col = 0
			} else {
				col++
			}
		}
		pos += n
	}
	return append(out, rtok{token.EndOfStream, "", pos, line, col}), fine
}

// lexCase runs the lexer over s and compares.
func lexCase(w *mc.W, s string) {
	w.Desc(func() string { return fmt.Sprintf("%q", s) })
	want, st := tokenize(s)
	out := "complete"
	if st == broken {
		out = "error"
	} else if st == open {
		out = "open"
	}
	p := mc.Safe(func() {
		l := lex.New(s)
		for k, t := range want {
			w.Step(1)
			g, err := l.Next()
			if err != nil || g == nil {
				w.Fail("rejected", "token %d should be %s %q but is the error %v", k, t.kind, t.text, err)
				return
			}
			if g.Type != t.kind {
				w.Fail("kind", "token %d %q is a %s instead of %s %q", k, g.Capture, g.Type, t.kind, t.text)
				return
			}
			if g.Capture != t.text {
				w.Fail("text", "token %d is %q instead of %q", k, g.Capture, t.text)
				return
			}
			if g.Position != t.pos || g.Line != t.line || g.Column != t.col {
				w.Fail("position", "token %d %q is at %d (line %d, column %d) instead of %d (%d, %d)", k, t.text, g.Position, g.Line, g.Column, t.pos, t.line, t.col)
				return
			}
		}
		if st == open {
			return
		}
		w.Step(1)
		g, err := l.Next()
		if st == broken && err == nil {
			w.Fail("accepted", "after %d tokens there is no token, but the lexer returns %s %q", len(want), g.Type, g.Capture)
		}
		if st == fine && (err != nil || g == nil || g.Type != token.EndOfStream || g.Capture != "" || g.Position != len(s)) {
			w.Fail("end", "reading again at the end gives %v, %v", g, err)
		}
	})
	if p != nil {
		w.Fail("panic", "%v", p)
	}
	w.Trace(fmt.Sprintf("%s, %d tokens", out, min(len(want), 9)))
}
