package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Tok is one token of a document text. K: one of { } [ ] , : or k (name), s (text), n (number), l (true, false, null).
type Tok struct {
	K string `json:"k"`
	T Bin    `json:"t"`
}

// spell writes text as a JSON string in one of the many spellings the grammar allows.
func spell(t *rapid.T, s string, style int) string {
	if len(s) > 50000 {
		style = 0 // reading takes time quadratic in the length of a token
	}
	var b strings.Builder
	b.WriteByte('"')
	high := false // half of a pair of escapes comes before
	for _, r := range s {
		if r == utf8.RuneError && style > 1 && chance(t, 1, 3) {
			// half a pair stands for the replacement character
			if high || bit.Draw(t, "") {
				b.WriteString(oneOf(t, "\\ud800", "\\ud83d", "\\uDBFF"))
				high = true
			} else {
				b.WriteString(oneOf(t, "\\udc00", "\\ude00", "\\uDFFF"))
			}
			continue
		}
		high = false
		must := r == '"' || r == '\\' || r < 0x20
		st := style
		if style == 3 {
			st = pick(t, 3)
		}
		short := strings.IndexRune("\"\\/\b\f\n\r\t", r)
		switch {
		case short >= 0 && (must && st != 2 || st == 1):
			b.WriteByte('\\')
			b.WriteByte("\"\\/bfnrt"[short])
		case must || st == 2:
			e := uEscape(r, "%04x")
			if style == 3 {
				switch pick(t, 3) {
				case 0:
					e = uEscape(r, "%04X")
				case 1:
					e = e[:3] + strings.ToUpper(e[3:4]) + e[4:]
				}
			}
			b.WriteString(e)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func uEscape(r rune, f string) string {
	if r >= 0x10000 {
		a, c := utf16.EncodeRune(r)
		return fmt.Sprintf("\\u"+f+"\\u"+f, a, c)
	}
	return fmt.Sprintf("\\u"+f, r)
}

// tokens writes a syntax tree down.
func tokens(t *rapid.T, n *N, style int, out []Tok) []Tok {
	switch n.K {
	case "map":
		out = append(out, Tok{"{", "{"})
		for i := range n.Keys {
			if i > 0 {
				out = append(out, Tok{",", ","})
			}
			out = append(out, Tok{"k", Bin(spell(t, string(n.Keys[i]), style))}, Tok{":", ":"})
			out = tokens(t, n.Kids[i], style, out)
		}
		return append(out, Tok{"}", "}"})
	case "array":
		out = append(out, Tok{"[", "["})
		for i := range n.Kids {
			if i > 0 {
				out = append(out, Tok{",", ","})
			}
			out = tokens(t, n.Kids[i], style, out)
		}
		return append(out, Tok{"]", "]"})
	case "string":
		return append(out, Tok{"s", Bin(spell(t, string(n.S), style))})
	case "num":
		return append(out, Tok{"n", n.S})
	case "null":
		return append(out, Tok{"l", "null"})
	}
	return append(out, Tok{"l", n.S})
}

// space draws whitespace for one gap.
func space(t *rapid.T, style int) string {
	switch style {
	case 0:
		return ""
	case 1:
		return " "
	case 2:
		return oneOf(t, "", "", "", " ", "\n", "\t", "\r\n")
	}
	n := pick(t, 4)
	s := ""
	for i := 0; i < n; i++ {
		s += oneOf(t, " ", "\n", "\t", "\r")
	}
	return s
}

// spaces draws the whitespace after every token but the last.
func spaces(t *rapid.T, n, style int) []string {
	r := make([]string, n)
	for i := 0; i+1 < n; i++ {
		r[i] = space(t, style)
	}
	if style < 2 || n < 2 {
		return r
	}
	switch pick(t, 16) {
	case 0: // indented lines
		unit, end := oneOf(t, " ", "  ", "    ", "\t"), oneOf(t, "\n", "\r\n")
		for i := 0; i+1 < n; i++ {
			if bit.Draw(t, "") {
				r[i] = end + strings.Repeat(unit, pick(t, 12))
			}
		}
	case 1, 2: // long gaps
		for i, k := 0, between(t, 1, 3); i < k; i++ {
			r[pick(t, n-1)] = strings.Repeat(oneOf(t, " ", " ", "\n", "\t", "\r", "\r\n", " \t", "\n  "), oneOf(t, 4, 5, 8, 9, 15, 17, 31, 33, 63, 65, 130, 260, 520, 1030))
		}
	}
	return r
}

func join(toks []Tok, ws []string) string {
	var b strings.Builder
	for i, k := range toks {
		b.WriteString(string(k.T))
		if i < len(ws) {
			b.WriteString(ws[i])
		}
	}
	return b.String()
}

// genSyntax draws a syntax tree: what genDoc draws, and sometimes repeated names.
func genSyntax(t *rapid.T, o treeOpt) *N {
	n := genDoc(t, o)
	if chance(t, 1, 6) {
		repeatNames(t, n)
	}
	return n
}

func repeatNames(t *rapid.T, n *N) {
	seen := map[*N]bool{}
	n.walk(func(m *N) {
		if seen[m] {
			return
		}
		seen[m] = true
		if m.K == "map" && len(m.Keys) > 0 && bit.Draw(t, "") {
			i := pick(t, len(m.Keys))
			at := between(t, i+1, len(m.Keys))
			keys := append([]Bin{}, m.Keys[:at]...)
			kids := append([]*N{}, m.Kids[:at]...)
			keys = append(append(keys, m.Keys[i]), m.Keys[at:]...)
			kids = append(append(kids, genNode(t, treeOpt{depth: 1, width: 2, parsed: true})), m.Kids[at:]...)
			m.Keys, m.Kids = keys, kids
		}
	})
}

// genText draws a document text with its meaning.
func genDocText(t *rapid.T, depth, width int) (*N, []Tok, []string) {
	return genDocTextOf(t, treeOpt{depth: depth, width: width, parsed: true})
}

func genDocTextOf(t *rapid.T, o treeOpt) (*N, []Tok, []string) {
	syn := genSyntax(t, o)
	toks := tokens(t, syn, pick(t, 4), nil)
	return syn, toks, spaces(t, len(toks), pick(t, 4))
}

func quote(s string) string {
	if len(s) > 300 {
		return strconv.QuoteToASCII(s[:150]) + "..." + strconv.QuoteToASCII(s[len(s)-100:])
	}
	return strconv.QuoteToASCII(s)
}
