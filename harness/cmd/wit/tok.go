package main

import (
	"fmt"
	"unicode"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/wit/lex"
	"github.com/patrickhuber/go-wasm/wit/token"
	"verif/harness/mc"
)

// rtok is a token of the reference tokenizer.
type rtok struct {
	kind token.TokenType
	text string
	pos  int
	line int
	col  int
}

type status int

const (
	fine   status = iota
	broken        // no tokenisation from here on
	open          // the grammar does not settle it
)

var punctuation = map[byte]token.TokenType{
	'=': token.Equal, ',': token.Comma, ':': token.Colon, '.': token.Period, ';': token.Semicolon,
	'(': token.OpenParen, ')': token.CloseParen, '{': token.OpenBrace, '}': token.CloseBrace,
	'<': token.Less, '>': token.Greater, '*': token.Star, '@': token.At, '+': token.Plus, '/': token.Slash, '-': token.Minus,
}

var keywords = map[string]token.TokenType{
	"use": token.Use, "type": token.Type, "func": token.Func,
	"u8": token.U8, "u16": token.U16, "u32": token.U32, "u64": token.U64,
	"s8": token.S8, "s16": token.S16, "s32": token.S32, "s64": token.S64,
	"float32": token.Float32, "float64": token.Float64, "char": token.Char, "bool": token.Bool, "string": token.String,
	"resource": token.Resource, "own": token.Own, "borrow": token.Borrow,
	"record": token.Record, "flags": token.Flags, "variant": token.Variant, "enum": token.Enum, "union": token.Union,
	"option": token.Option, "result": token.Result, "future": token.Future, "stream": token.Stream, "list": token.List, "tuple": token.Tuple,
	"as": token.As, "from": token.From, "static": token.Static, "interface": token.Interface, "world": token.World,
	"import": token.Import, "export": token.Export, "package": token.Package, "constructor": token.Constructor,
	"include": token.Include, "with": token.With,
}

func isLower(c byte) bool { return c >= 'a' && c <= 'z' }
func isUpper(c byte) bool { return c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// wordChar reports whether c can be part of a name or is close to it.
func wordChar(c byte) bool {
	return isLower(c) || isUpper(c) || isDigit(c) || c == '-' || c == '_' || c >= 0x80
}

// kebab reports whether s is a name: words joined by hyphens, each all lower or all upper case.
func kebab(s string) bool {
	i := 0
	for {
		if i == len(s) {
			return false
		}
		letter := isLower
		if isUpper(s[i]) {
			letter = isUpper
		}
		if !letter(s[i]) {
			return false
		}
		for i < len(s) && (letter(s[i]) || isDigit(s[i])) {
			i++
		}
		if i == len(s) {
			return true
		}
		if s[i] != '-' {
			return false
		}
		i++
	}
}

// foreign reports whether s starts with a non-ASCII letter, digit or space, which are left open.
func foreign(s string) bool {
	if s == "" || s[0] < 0x80 {
		return false
	}
	r, n := utf8.DecodeRuneInString(s)
	if r == utf8.RuneError && n == 1 {
		return false
	}
	return unicode.IsLetter(r) || unicode.IsNumber(r) || unicode.IsSpace(r) || unicode.IsMark(r)
}

// scan gives the length and kind of the token at the start of s.
func scan(s string) (int, token.TokenType, status) {
	c := s[0]
	switch {
	case c == ' ' || c == '\t' || c == '\n' || c == '\r':
		n := 1
		for n < len(s) && (s[n] == ' ' || s[n] == '\t' || s[n] == '\n' || s[n] == '\r') {
			n++
		}
		if n < len(s) && (s[n] == '\f' || s[n] == '\v' || foreign(s[n:])) {
			return 0, "", open
		}
		return n, token.Whitespace, fine
	case c == '\f' || c == '\v':
		return 0, "", open
	case c == '/' && len(s) > 1 && s[1] == '/':
		n := 2
		for n < len(s) && s[n] != '\n' {
			n++
		}
		return n, token.LineComment, text(s[:n])
	case c == '/' && len(s) > 1 && s[1] == '*':
		depth, i := 1, 2
		for i < len(s) {
			switch {
			case i+1 < len(s) && s[i] == '/' && s[i+1] == '*':
				depth++
				i += 2
			case i+1 < len(s) && s[i] == '*' && s[i+1] == '/':
				depth--
				i += 2
				if depth == 0 {
					return i, token.BlockComment, text(s[:i])
				}
			default:
				i++
			}
		}
		return 0, "", broken
	case c == '-' && len(s) > 1 && s[1] == '>':
		return 2, token.RightArrow, fine
	case c == '%':
		if len(s) == 1 || !wordChar(s[1]) || s[1] >= 0x80 && !foreign(s[1:]) {
			return 0, "", broken
		}
		n := 1
		for n < len(s) && wordChar(s[n]) {
			n++
		}
		if !kebab(s[1:n]) {
			return 0, "", open
		}
		return n, token.ExplicitId, fine
	case isDigit(c):
		n := 1
		for n < len(s) && isDigit(s[n]) {
			n++
		}
		if n < len(s) && (isLower(s[n]) || isUpper(s[n]) || s[n] == '_' || foreign(s[n:])) {
			return 0, "", open
		}
		return n, token.Integer, fine
	case isLower(c) || isUpper(c) || c == '_':
		n := 1
		for n < len(s) && wordChar(s[n]) {
			n++
		}
		w := s[:n]
		if k, ok := keywords[w]; ok {
			return n, k, fine
		}
		if w == "_" {
			return n, token.Underscore, fine
		}
		if !kebab(w) {
			return 0, "", open
		}
		return n, token.Id, fine
	}
	if k, ok := punctuation[c]; ok {
		return 1, k, fine
	}
	if foreign(s) {
		return 0, "", open
	}
	return 0, "", broken
}

// text leaves ill-formed UTF-8 open.
func text(s string) status {
	if utf8.ValidString(s) {
		return fine
	}
	return open
}

// tokenize is the reference tokenisation of s up to a broken or open place.
func tokenize(s string) ([]rtok, status) {
	var out []rtok
	pos, line, col := 0, 0, 0
	for pos < len(s) {
		n, k, st := scan(s[pos:])
		if st != fine {
			return out, st
		}
		out = append(out, rtok{k, s[pos : pos+n], pos, line, col})
		for _, c := range []byte(s[pos : pos+n]) {
			if c == '\n' {
				line++
				col = 0
			} else {
				col++
			}
		}
		pos += n
	}
	return append(out, rtok{token.EndOfStream, "", pos, line, col}), fine
}

// lexCase runs the lexer over s and compares.
func lexCase(w *mc.W, s string) {
	w.Desc(func() string { return fmt.Sprintf("%q", s) })
	want, st := tokenize(s)
	out := "complete"
	if st == broken {
		out = "error"
	} else if st == open {
		out = "open"
	}
	pv := mc.Safe(func() {
		l := lex.New(s)
		pos, line, col := 0, 0, 0
		for k := 0; ; k++ {
			w.Step(1)
			g, err := l.Next()
			if err == nil && g == nil {
				w.Fail("nothing", "token %d is neither a token nor an error", k)
				return
			}
			if k < len(want) {
				t := want[k]
				if err != nil {
					w.Fail("rejected", "token %d should be %s %q but is the error %v", k, t.kind, t.text, err)
					return
				}
				if g.Type != t.kind {
					w.Fail("kind", "token %d %q is a %s instead of %s %q", k, g.Capture, g.Type, t.kind, t.text)
					return
				}
				if g.Capture != t.text {
					w.Fail("text", "token %d is %q instead of %q", k, g.Capture, t.text)
					return
				}
			} else if st == broken && err == nil {
				w.Fail("accepted", "after %d tokens there is no token, but the lexer returns %s %q", len(want), g.Type, g.Capture)
				return
			}
			if err != nil {
				return
			}
			// whatever the kinds, the tokens have to tile the text
			if g.Position != pos || g.Line != line || g.Column != col {
				w.Fail("position", "token %d %q is at %d (line %d, column %d) instead of %d (%d, %d)", k, g.Capture, g.Position, g.Line, g.Column, pos, line, col)
				return
			}
			if len(g.Capture) > len(s)-pos || s[pos:pos+len(g.Capture)] != g.Capture {
				w.Fail("tiling", "token %d %q is not the text at %d", k, g.Capture, pos)
				return
			}
			for _, c := range []byte(g.Capture) {
				if c == '\n' {
					line++
					col = 0
				} else {
					col++
				}
			}
			pos += len(g.Capture)
			if g.Type == token.EndOfStream {
				if pos != len(s) || g.Capture != "" {
					w.Fail("early end", "the end is reported at %d of %d", pos, len(s))
					return
				}
				break
			}
			if g.Capture == "" {
				w.Fail("empty", "token %d is empty", k)
				return
			}
		}
		w.Step(1)
		g, err := l.Next()
		if err != nil || g == nil || g.Type != token.EndOfStream || g.Capture != "" || g.Position != len(s) {
			w.Fail("end", "reading again at the end gives %v, %v", g, err)
		}
	})
	if pv != nil {
		w.Fail("panic", "%v", pv)
	}
	w.Trace(fmt.Sprintf("%s, %d tokens", out, min(len(want), 9)))
}
