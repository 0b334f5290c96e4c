package main

import (
	stdjson "encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/matehaxor03/holistic_json/json"
)

// ---- C01: parsing yields exactly the content

type textCase struct {
	Syn  *N  `json:"syn"`
	Text Bin `json:"text"`
}

func genTextCase(t *rapid.T) textCase {
	if chance(t, 1, 8) { // a mutated text that is still valid
		for i := 0; i < 10; i++ {
			s := string(genBytes(t).Text)
			if n := strictValue(s); n != nil {
				return textCase{n, Bin(s)}
			}
		}
	}
	if chance(t, 1, 150) {
		return genHuge(t)
	}
	syn, toks, ws := genDocText(t, 3, 4)
	return textCase{syn, Bin(join(toks, ws))}
}

// genHuge draws a document of some ten thousand to some hundred thousand bytes, made of few different values many times.
func genHuge(t *rapid.T) textCase {
	few := genSyntax(t, treeOpt{depth: 2, width: 6, parsed: true}).Kids
	few = append(few, &N{K: "num", S: Bin(numText(t))}, &N{K: "string", S: Bin(genText(t))}, &N{K: "string", S: Bin(genWord(t, 10, 40))})
	var texts []string
	for _, n := range few {
		toks := tokens(t, n, pick(t, 4), nil)
		texts = append(texts, join(toks, spaces(t, len(toks), pick(t, 4))))
	}
	size, step, gap := oneOf(t, 10000, 35000, 70000, 140000), 1+pick(t, 50), oneOf(t, "", " ", "\n\t")
	list := &N{K: "array"}
	var b strings.Builder
	b.WriteString("{\"before\":" + texts[0] + ",\"list\":[")
	for i := 0; b.Len() < size && i < 3000; i++ {
		if i > 0 {
			b.WriteString("," + gap)
		}
		k := (i * i * step / 7) % len(few)
		b.WriteString(texts[k])
		list.Kids = append(list.Kids, few[k])
	}
	b.WriteString("]" + gap + ",\"after\":" + texts[len(texts)-1] + "}")
	return textCase{&N{K: "map", Keys: []Bin{"before", "list", "after"}, Kids: []*N{few[0], list, few[len(few)-1]}}, Bin(b.String())}
}

func textClasses(x *Ctx, c textCase) *N {
	want := resolve(c.Syn)
	classesOf(x, want)
	s := string(c.Text)
	x.ClassIf(strings.Contains(s, "\\u"), "\\u escapes")
	x.ClassIf(strings.Contains(s, "\\ud8"), "surrogate pair escapes")
	x.ClassIf(want.size() < c.Syn.size(), "repeated member name")
	x.ClassIf(strings.ContainsAny(s, "\n\t\r"), "line breaks or tabs")
	return want
}

var _ = register(Prop{ID: "C01", Quick: 8000, Thor: 320000, After: []string{"parse"},
	Rule: "generated JSON documents: a random tree of objects, arrays, texts, numbers, booleans and nulls, up to 12 levels deep or 20 members wide, written down with random escape spelling, number spelling, whitespace and repeated names, rarely of up to 140000 bytes, or a random mutation of such a text that is still valid, read by encoding/json; non-trivial: at least 3 nodes besides the root, or a text, name or number that is not plain (escape, non-ASCII, structural character, look-alike of null, fraction or exponent)"},
	genTextCase,
	func(c textCase, x *Ctx) error {
		want := textClasses(x, c)
		x.steps += want.size()
		x.Nontrivial(want.size() > 3 || strings.ContainsAny(string(c.Text), "\\.eE") || x.classes["non-ASCII text"])
		m, err := parse(string(c.Text))
		if err != nil {
			return err
		}
		return cmpMap(m, want, "document", false)
	})

// ---- C19: whitespace between tokens changes nothing

type spaceCase struct {
	Syn   *N    `json:"syn"`
	Toks  []Tok `json:"toks"`
	Gaps1 []Bin `json:"gaps1"`
	Gaps2 []Bin `json:"gaps2"`
}

func bins(l []string) []Bin {
	r := make([]Bin, len(l))
	for i := range l {
		r[i] = Bin(l[i])
	}
	return r
}

func strs(l []Bin) []string {
	r := make([]string, len(l))
	for i := range l {
		r[i] = string(l[i])
	}
	return r
}

var _ = register(Prop{ID: "C19", Quick: 6000, Thor: 160000, After: []string{"parse"},
	Rule: "a generated document written twice with the same tokens and different whitespace in the gaps (none, one space, sparse, runs of space, tab, carriage return and newline), one text of the pair often the compact one, both compared with the tree that was written down; non-trivial: the two texts differ in at least two gaps"},
	func(t *rapid.T) spaceCase {
		syn := genSyntax(t, treeOpt{depth: 3, width: 4, parsed: true})
		toks := tokens(t, syn, pick(t, 4), nil)
		return spaceCase{syn, toks, bins(spaces(t, len(toks), oneOf(t, 0, 0, 1, 2))), bins(spaces(t, len(toks), oneOf(t, 1, 2, 3, 3)))}
	},
	func(c spaceCase, x *Ctx) error {
		a, b := join(c.Toks, strs(c.Gaps1)), join(c.Toks, strs(c.Gaps2))
		diff := 0
		for i := range c.Gaps1 {
			if c.Gaps1[i] != c.Gaps2[i] {
				diff++
				x.Class("gap after " + c.Toks[i].K)
				for _, r := range string(c.Gaps2[i]) {
					x.Class(fmt.Sprintf("inserts %q", r))
				}
			}
		}
		x.steps += diff
		x.Nontrivial(diff >= 2)
		m1, err := parse(a)
		if err != nil {
			return err
		}
		x.Upset()
		m2, err := parse(b)
		if err != nil {
			return err
		}
		if d1, d2 := dump(m1), dump(m2); d1 != d2 {
			return fmt.Errorf("%s gives %s\n%s gives %s", quote(a), clip(d1), quote(b), clip(d2))
		}
		want := resolve(c.Syn)

		if err := cmpMap(m1, want, "document", true); err != nil {
			return fmt.Errorf("Parse(%s): %v", quote(a), err)
		}
		return cmpMap(m2, want, "document", true)
	})

// ---- C04: any bytes end in a document or in errors

type bytesCase struct {
	Text  Bin `json:"text"`
	Other Bin `json:"other,omitempty"` // parsed between the two times the text is
}

var scraps = []string{"{", "}", "[", "]", "\"", ":", ",", "\\", " ", "\n", "null", "true", "false", "1", "-", ".", "e", "{}", "[]", "\"a\"", "\"a\":", "\\\"", "\\u", "\\ud800", "\\udc00", "\\u00", "\\n", "\\\\", "0", "/", "\x00", "\xff", "\xc3", "\xe2\x80", "\u00a0", "\u0085", "\u2028", "é", "'", "//", "/**/", "NaN", "1e9", "+", "t", "n", "{\"a\":1}"}

func genBytes(t *rapid.T) bytesCase {
	var s []byte
	switch pick(t, 6) {
	case 0: // scraps between braces
		s = append(s, '{')
		for i, n := 0, between(t, 0, 10); i < n; i++ {
			s = append(s, scraps[pick(t, len(scraps))]...)
		}
		s = append(s, '}')
	case 1: // scraps
		for i, n := 0, between(t, 0, 8); i < n; i++ {
			s = append(s, scraps[pick(t, len(scraps))]...)
		}
	case 2: // random bytes
		for i, n := 0, between(t, 0, 12); i < n; i++ {
			s = append(s, byte(bits64(t)))
		}
		if bit.Draw(t, "") {
			s = append(append([]byte("{\""), s...), "\":1}"...)
		}
	default: // mutations of a valid document
		_, toks, ws := genDocText(t, 2, 3)
		s = []byte(join(toks, ws))
		if found := corpus(); chance(t, 1, 6) && len(found) > 0 {
			s = []byte(found[pick(t, len(found))])
			if bit.Draw(t, "") { // as a member
				s = []byte("{\"a\":[" + string(s) + "]}")
			}
		}
		if most := oneOf(t, 600, 600, 600, 6000); len(s) > most {
			s = s[:most]
		}
		for i, n := 0, between(t, 0, 3); i < n; i++ {
			at := pick(t, len(s)+1)
			end := min(at+pick(t, 4), len(s))
			switch pick(t, 6) {
			case 0:
				s = append(s[:at:at], s[end:]...)
			case 1:
				s = append(append(s[:at:at], scraps[pick(t, len(scraps))]...), s[at:]...)
			case 2:
				s = append(append(s[:at:at], scraps[pick(t, len(scraps))]...), s[end:]...)
			case 3:
				s = append(append(s[:at:at], s[at:end]...), s[at:]...)
			case 4:
				if at < len(s) {
					s = append(s[:0:0], s...)
					s[at] ^= 1 << pick(t, 8)
				}
			default:
				from := pick(t, len(s)+1)
				to := min(from+pick(t, 30), len(s))
				part := append([]byte{}, s[from:to]...)
				s = append(append(s[:at:at], part...), s[at:]...)
			}
		}
		if chance(t, 1, 10) {
			s = s[:pick(t, len(s)+1)]
		}
	}
	return bytesCase{Text: Bin(s)}
}

var _ = register(Prop{ID: "C04", Quick: 40000, Thor: 1200000, After: []string{"parse"},
	Rule: "byte strings: generated documents with up to three random deletions, insertions, replacements, duplications, bit flips or splices, sequences of JSON scraps, invalid UTF-8, random bytes and truncations, sometimes with another such text parsed in between; non-trivial: the text starts with { and ends with } and is not a valid JSON text, or is accepted"},
	func(t *rapid.T) bytesCase {
		c := genBytes(t)
		if chance(t, 1, 4) {
			c.Other = genBytes(t).Text
		}
		return c
	},
	func(c bytesCase, x *Ctx) error {
		s := string(c.Text)
		m, e := json.Parse(s)
		valid := stdjson.Valid([]byte(s))
		frame := strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}")
		x.Nontrivial(m != nil || frame && !valid)
		x.ClassIf(m != nil && valid, "valid and accepted")
		x.ClassIf(m != nil && !valid, "not standard but accepted")
		x.ClassIf(m == nil && frame, "rejected inside braces")
		x.ClassIf(m == nil && !frame, "rejected without braces")
		if (m == nil) != (len(e) > 0) {
			return fmt.Errorf("Parse(%s) gives document: %v, %d errors", quote(s), m != nil, len(e))
		}
		for _, k := range e {
			if k == nil {
				return fmt.Errorf("Parse(%s) reports a nil error", quote(s))
			}
		}
		x.Upset()
		if len(c.Other) > 0 {
			json.Parse(string(c.Other))
		}
		m2, e2 := json.Parse(s)
		if (m2 == nil) != (m == nil) || (e2 == nil) != (e == nil) {
			return fmt.Errorf("Parse(%s) first: document %v, then: %v", quote(s), m != nil, m2 != nil)
		}
		if m == nil {
			return nil
		}
		d := dump(m)
		if d2 := dump(m2); d != d2 {
			return fmt.Errorf("Parse(%s) gives %s and then %s", quote(s), clip(d), clip(d2))
		}
		text, e := toJSON(m)
		if len(e) > 0 {
			return fmt.Errorf("Parse(%s) gives a document that cannot be serialised: %s", quote(s), errText(e))
		}
		m3, err := parse(text)
		if err != nil {
			return fmt.Errorf("Parse(%s) is accepted and serialised, but %v", quote(s), err)
		}
		text2, e := toJSON(m3)
		if len(e) > 0 || text2 != text {
			return fmt.Errorf("Parse(%s) is serialised to %s and after parsing that to %s %s", quote(s), quote(text), quote(text2), errText(e))
		}
		return nil
	})

// ---- C05: malformed documents are rejected

type badCase struct {
	Text   Bin    `json:"text"`
	Defect string `json:"defect"`
}

var bareWords = []string{"abc", "nul", "nulll", "True", "FALSE", "NULL", "tru", "truefalse", "undefined", "NaN", "Infinity", "-Infinity", "'x'", "none", "x", "@", "#", "*", "a b", "nil", "<nil>", "`x`", "tr ue", "nu\nll", "f alse", "éa", "0a", "a0", "=1", "(1)", "true1", "1true", "-true", "$"}
var badNumbers = []string{"1-2", "--1", "1..2", "1e", "1e+", "-", "0x10", "0x1.8p1", "1_000", "1_0.5", "1.2.3", "1e5.5", "1ee5", "-e5", "1e-", "- 1", "1 2", "1. 5", "-1-", "1+1", "1e5e5", "0b1", "0o7", "1f", "1.5f", "1.0L", "e5", ".", "-.", "+", "+-1", "0x", "1.5.", "1e1.0", "5-", "12-34", "1.-5", "1e--5", "1e+-5", "-Inf", "1/2", "1%", "٣", "1.٣",
	"01", "-01", "00", "-00", "007", "+1", "+0", ".5", "-.5", "5.", "-5.", "5.e1", ".e1", "+1.5", "01.5", "-00.5", "1.e5", "+1e5", "0e", "-0x1F", "0X10", "0B1", "0O7", "1_0", "1'000", "1n", "1e5f", "\u00a01", "1\u00a0", "\v1", "1\f", "\ufeff1", "１", "1١", "²", "1\x00", "\x001"}

func cutTok(l []Tok, i, j int) []Tok { return append(append([]Tok{}, l[:i]...), l[j:]...) }
func putTok(l []Tok, i int, k ...Tok) []Tok {
	return append(append(append([]Tok{}, l[:i]...), k...), l[i:]...)
}

// valueEnd is the index after the value that starts at token i.
func valueEnd(l []Tok, i int) int {
	d := 0
	for ; i < len(l); i++ {
		switch l[i].K {
		case "{", "[":
			d++
		case "}", "]":
			d--
		}
		if d == 0 {
			return i + 1
		}
	}
	return i
}

func badNumber(t *rapid.T) string {
	if bit.Draw(t, "") {
		return badNumbers[pick(t, len(badNumbers))]
	}
	for i := 0; i < 10; i++ {
		s := ""
		switch pick(t, 4) {
		case 0: // another base, digits in groups
			s = oneOf(t, "", "-", "+", "") + oneOf(t, "0x", "0X", "0o", "0O", "0b", "0B", "0", "00", "x", "#", "0x_") + strconv.FormatUint(bits64(t)>>uint(pick(t, 64)), oneOf(t, 2, 8, 10, 16))
		case 1:
			s = oneOf(t, "", "-") + numText(t)
			at := between(t, 0, len(s))
			s = s[:at] + oneOf(t, "_", "-", "+", ".", "e", "E", "x", "'", "f", "d", "L", "u", "n", "i", "%", "٣", "\u00a0", "\u2028", "\x00", "\v", "\f", "\x1f", "\x7f", "o", "p1", "e+", "0x", "_0", ".0") + s[at:]
		case 2:
			s = oneOf(t, "+", "0", "-0", "00", "-", ".", "-.", "+.") + numText(t)
		default:
			for j, n := 0, between(t, 1, 7); j < n; j++ {
				s += oneOf(t, "1", "0", "9", "5", "-", ".", "e", "E", "+", "x", "_")
			}
		}
		if !numberShape.MatchString(s) {
			return s
		}
	}
	return "1-1"
}

func hugeNumber(t *rapid.T) string {
	switch pick(t, 6) {
	case 0:
		return new(big.Int).Add(kindMax("uint64"), big.NewInt(int64(between(t, 1, 4)))).String()
	case 1:
		return new(big.Int).Sub(kindMin("int64"), big.NewInt(int64(between(t, 1, 4)))).String()
	case 2:
		return oneOf(t, "", "-") + oneOf(t, "1", "9", "2") + digits(t, between(t, 20, 60))
	case 3:
		return oneOf(t, "", "-") + oneOf(t, "1.8e308", "1e309", "1E400", "1e999999", "17976931348623159e292", "0.0018e312", "1.7976931348623159e+308")
	case 4:
		return oneOf(t, "", "-") + "1" + digits(t, between(t, 309, 340)) + "." + digits(t, 1)
	default:
		return oneOf(t, "", "-") + strconv.Itoa(between(t, 1, 9)) + "." + digits(t, 3) + "e" + strconv.Itoa(between(t, 309, 2000))
	}
}

// balanced tells whether every bracket has its partner.
func balanced(l []Tok) bool {
	open := ""
	for _, k := range l {
		switch k.K {
		case "{", "[":
			open += k.K
		case "}", "]":
			if n := len(open); n == 0 || open[n-1] == '{' != (k.K == "}") {
				return false
			} else {
				open = open[:n-1]
			}
		}
	}
	return open == ""
}

func genBad(t *rapid.T) badCase {
	for {
		c, ok := tryBad(t)
		if ok {
			return c
		}
	}
}

// bury puts a document deep into another one or among many siblings.
func bury(t *rapid.T, n *N) *N {
	if bit.Draw(t, "") { // deep
		for d := oneOf(t, 3, 8, 12, 17, 24, 33, 40, 66, 70); d > 0; d-- {
			if bit.Draw(t, "") || d == 1 {
				n = &N{K: "map", Keys: []Bin{Bin(oneOf(t, "a", "b", "", "é"))}, Kids: []*N{n}}
			} else {
				n = &N{K: "array", Kids: []*N{n}}
			}
		}
		return n
	}
	// many
	w := oneOf(t, 9, 17, 20, 33, 65, 70, 130)
	kind := pick(t, 5)
	at := oneOf(t, w, w, pick(t, w+1), 0)
	r := &N{K: "array"}
	for i := 0; i <= w; i++ {
		if i == at {
			r.Kids = append(r.Kids, n)
		} else {
			r.Kids = append(r.Kids, [](*N){{K: "num", S: Bin(strconv.Itoa(i))}, {K: "map"}, {K: "array"}, {K: "string", S: "}]"}, {K: "map", Keys: []Bin{"a"}, Kids: []*N{{K: "null"}}}}[kind])
		}
	}
	if bit.Draw(t, "") {
		return &N{K: "map", Keys: []Bin{"many"}, Kids: []*N{r}}
	}
	r.K = "map"
	for i := range r.Kids {
		r.Keys = append(r.Keys, Bin("m"+strconv.Itoa(i)))
	}
	return r
}

func tryBad(t *rapid.T) (badCase, bool) {
	syn := genMap(t, treeOpt{depth: 2, width: 3, parsed: true})
	if len(syn.Keys) == 0 {
		syn.set("a", &N{K: "array", Kids: []*N{{K: "num", S: "1"}}})
	}
	if chance(t, 1, 8) {
		syn = bury(t, syn)
	}
	toks := tokens(t, syn, pick(t, 4), nil)
	style := pick(t, 4)
	where := func(kinds string) int {
		var at []int
		for i, k := range toks {
			if strings.Contains(kinds, k.K) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return -1
		}
		return at[pick(t, len(at))]
	}
	done := func(defect string, l []Tok) (badCase, bool) {
		s := join(l, spaces(t, len(l), style))
		return badCase{Bin(s), defect}, defect == "number out of range" || !stdjson.Valid([]byte(s))
	}
	values := func() int { // the first token of a value: not a name, not the root
		var at []int
		for i, k := range toks {
			if i > 0 && strings.Contains("snl{[", k.K) {
				at = append(at, i)
			}
		}
		return at[pick(t, len(at))]
	}
	switch pick(t, 19) {
	case 18:
		// after a number or a literal only a comma or a closing bracket can stand
		var at []int
		for i, k := range toks {
			if k.K == "," && strings.Contains("nl", toks[i-1].K) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return badCase{}, false
		}
		i := at[pick(t, len(at))]
		return done("separator missing", cutTok(toks, i, i+1))
	case 16, 17:
		for i := 0; i < 20; i++ {
			if s := string(genBytes(t).Text); loose(s) == looseNo && (i > 10 || strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}")) {
				return badCase{Bin(s), "malformed by mutation"}, true
			}
		}
		return badCase{}, false
	case 0, 1:
		s := join(toks, spaces(t, len(toks), style))
		return badCase{Bin(s[:between(t, 0, len(s)-1)]), "cut off"}, true
	case 2:
		i := where("{}[]")
		return done("bracket missing", cutTok(toks, i, i+1))
	case 3:
		b := oneOf(t, "{", "}", "[", "]")
		return done("bracket too many", putTok(toks, between(t, 0, len(toks)), Tok{b, Bin(b)}))
	case 4:
		i := where("{}[]")
		b := oneOf(t, "{", "}", "[", "]")
		if b == toks[i].K {
			return badCase{}, false
		}
		l := append([]Tok{}, toks...)
		l[i] = Tok{b, Bin(b)}
		return done("wrong bracket", l)
	case 5:
		i, j := where("{}[]"), where("{}[]")
		if toks[i].K == toks[j].K {
			return badCase{}, false
		}
		l := append([]Tok{}, toks...)
		l[i], l[j] = l[j], l[i]
		if balanced(l) { // only commas are out of place, which the parser tolerates
			return badCase{}, false
		}
		return done("crossed brackets", l)
	case 6:
		other := oneOf(t, "x", "{}", "{\"a\":1}", "\"s\"", "null", "1", "[]", "}", "]", "{", "a}", ":1}", "\"}", "x:{}", "[{}", "true{}", "\\}", "é}")
		s := join(toks, spaces(t, len(toks), style))
		gap := space(t, 2)
		if bit.Draw(t, "") {
			s = s + gap + other
		} else {
			s = other + gap + s
		}
		if strings.ContainsAny(other, "\\") {
			return badCase{Bin(s), "content around the root"}, !stdjson.Valid([]byte(s)) && strings.HasSuffix(s, "\\}")
		}
		return badCase{Bin(s), "content around the root"}, !stdjson.Valid([]byte(s))
	case 7, 8:
		i := where("k")
		end := valueEnd(toks, i+2)
		switch pick(t, 6) {
		case 0:
			return done("member without value", cutTok(toks, i+2, end))
		case 1:
			return done("member without colon", cutTok(toks, i+1, i+2))
		case 2:
			return done("member without name", cutTok(toks, i, i+1))
		case 3:
			return done("member without name and colon", cutTok(toks, i, i+2))
		case 4:
			return done("member without colon and value", cutTok(toks, i+1, end))
		default:
			l := append([]Tok{}, toks...)
			l[i] = Tok{"w", Bin(oneOf(t, "a", "abc", "1", "null", "true", "'a'", "[]", "{}", "n", "t", "r", "nrt", "-", "é", "[1]"))}
			return done("name without quotes", l)
		}
	case 9:
		i := values()
		l := putTok(cutTok(toks, i, valueEnd(toks, i)), i, Tok{"w", Bin(bareWords[pick(t, len(bareWords))])})
		return done("bare word as a value", l)
	case 10, 11:
		i := values()
		l := putTok(cutTok(toks, i, valueEnd(toks, i)), i, Tok{"w", Bin(badNumber(t))})
		if strings.HasSuffix(string(l[i].T), ",") {
			return badCase{}, false
		}
		return done("malformed number", l)
	case 12:
		i := values()
		l := putTok(cutTok(toks, i, valueEnd(toks, i)), i, Tok{"n", Bin(hugeNumber(t))})
		return done("number out of range", l)
	case 13:
		w := oneOf(t, "x", "abc", "@", "#", "*", "'", "nil", "truth", "é", "n", "t", "r", "u", "f", "::", ":", "=", ";", "(", "$", "true", "null", "7")
		i := between(t, 1, len(toks)-1)
		if w == "true" || w == "null" || w == "7" || w == ":" {
			// these are stray only where no value is expected: after a whole value of a member, or before a name
			if toks[i-1].K == "," || toks[i-1].K == "[" || toks[i-1].K == ":" || strings.Contains("snl", toks[i-1].K) || strings.Contains("snl", toks[i].K) || strings.Contains("]}", toks[i-1].K) {
				return badCase{}, false
			}
			if toks[i-1].K == "k" && w == ":" {
				return badCase{}, false
			}
		}
		return done("stray text", putTok(toks, i, Tok{"w", Bin(w)}))
	case 14:
		i := where("ks")
		l := append([]Tok{}, toks...)
		s := string(l[i].T)
		if bit.Draw(t, "") {
			l[i].T = Bin(s[:len(s)-1])
		} else {
			l[i].T = Bin(s[1:])
		}
		return done("quote missing", l)
	default:
		i := where("nl")
		if i < 0 || len(toks[i].T) < 2 {
			return badCase{}, false
		}
		s := string(toks[i].T)
		at := between(t, 1, len(s)-1)
		l := append([]Tok{}, toks...)
		l[i].T = Bin(s[:at] + oneOf(t, " ", "\n", "\t", "\r", "  ") + s[at:])
		return done("token split by whitespace", l)
	}
}

var _ = register(Prop{ID: "C05", Quick: 32000, Thor: 640000, After: []string{"parse"},
	Rule:   "a generated valid document with one defect planted at a random place: cut off, a bracket missing, added, replaced or exchanged, content before or after the root, a member without value, colon or quoted name, a bare word or stray text, a malformed or unrepresentable number, a split token, a missing quote; or a text made by random mutation that the JSON grammar refuses even without its rules for commas and the content of strings; encoding/json refuses each (except numbers out of range, which are so by construction); non-trivial: the text still starts with { and ends with }",
	Assume: []string{"not claimed: missing, doubled or trailing commas, backslashes between tokens, raw control characters and unknown escapes inside strings"}},
	genBad,
	func(c badCase, x *Ctx) error {
		s := string(c.Text)
		x.Class(c.Defect)
		x.Nontrivial(strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}"))
		m, e := json.Parse(s)
		if len(e) == 0 || m != nil {
			got := "nothing"
			if m != nil {
				got = dump(m)
			}
			return fmt.Errorf("%s: Parse(%s) reports %d errors and gives %s", c.Defect, quote(s), len(e), clip(got))
		}
		return nil
	})

// ---- C06: narrowest number type

type numsCase struct {
	Syn  *N  `json:"syn"`
	Text Bin `json:"text"`
}

// edgeNum draws a number text near a limit of a type more often than numText does.
func edgeNum(t *rapid.T) string {
	switch pick(t, 5) {
	case 0:
		k := oneOf(t, "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
		v := new(big.Int).Set(kindMax(k))
		if bit.Draw(t, "") {
			v.Set(kindMin(k))
		}
		v.Add(v, big.NewInt(int64(between(t, -2, 2))))
		if v.Sign() < 0 && !fits(v, "int64") || v.Sign() >= 0 && !fits(v, "uint64") {
			return kindMax(k).String()
		}
		return v.String()
	case 1:
		v := genIntOf(t, "int64")
		if v.Sign() >= 0 {
			v.Neg(v)
			if v.Sign() == 0 {
				return "-0"
			}
		}
		return v.String()
	}
	return numText(t)
}

// genNums draws a syntax tree full of numbers: members, elements, repeated names, numbers after other numbers and values.
func genNums(t *rapid.T, depth int, kind string) *N {
	n := &N{K: kind}
	w := between(t, 0, 4)
	if chance(t, 1, 12) {
		w = between(t, 5, 40)
	}
	for i := 0; i < w; i++ {
		kid := &N{K: "num"}
		switch c := pick(t, 12); {
		case c == 0:
			kid = oneOf(t, &N{K: "null"}, &N{K: "bool", S: "true"}, &N{K: "bool", S: "false"}, &N{K: "string", S: "12"}, &N{K: "string"})
		case c < 4 && depth > 0:
			kid = genNums(t, depth-1, oneOf(t, "map", "array"))
		default:
			kid.S = Bin(edgeNum(t))
			if i > 0 && n.Kids[i-1].K == "num" && chance(t, 1, 6) {
				kid.S = n.Kids[i-1].S
			}
		}
		n.Kids = append(n.Kids, kid)
		if kind == "map" {
			k := Bin(genKey(t))
			if i > 0 && chance(t, 1, 4) {
				k = n.Keys[pick(t, i)]
			}
			n.Keys = append(n.Keys, k)
		}
	}
	return n
}

var _ = register(Prop{ID: "C06", Quick: 6000, Thor: 240000, After: []string{"parse", "native"},
	Rule: "documents of generated number texts (limits of every width and their neighbours, random bit lengths, decimals of 1 to 25 digits, exponents, 32 and 64 bit float limits) at generated places: members, elements and nested ones, after numbers of other widths and other values, under repeated names; non-trivial: a number that is not a one-digit integer"},
	func(t *rapid.T) numsCase {
		syn := genNums(t, 3, "map")
		toks := tokens(t, syn, pick(t, 4), nil)
		return numsCase{syn, Bin(join(toks, spaces(t, len(toks), pick(t, 4))))}
	},
	func(c numsCase, x *Ctx) error {
		s := string(c.Text)
		m, err := parse(s)
		if err != nil {
			return err
		}
		want := resolve(c.Syn)
		x.ClassIf(want.size() < c.Syn.size(), "repeated name")
		if err := cmpMap(m, want, "document", true); err != nil {
			return fmt.Errorf("Parse(%s): %v", quote(s), err)
		}
		one := func(v *json.Value, n *N) error {
			if n.K == "map" || n.K == "array" || n.K == "null" {
				return nil
			}
			x.Class(n.K)
			x.steps++
			x.Nontrivial(len(n.S) > 1)
			if err := predicates(v, "", n, n.String()+" of "+quote(s)); err != nil {
				return err
			}
			if ty := strings.TrimPrefix(v.GetType(), "*"); ty != n.K {
				return fmt.Errorf("%s of %s has type %s", n.String(), quote(s), ty)
			}
			return nil
		}
		var walk func(obj any, n *N) error
		walk = func(obj any, n *N) error {
			for i, k := range n.Kids {
				var v *json.Value
				switch o := obj.(type) {
				case *json.Map:
					key := string(n.Keys[i])
					v = o.GetValue(key)
					if k.K != "map" && k.K != "array" && k.K != "null" {
						if err := predicates(o, key, k, "member "+strconv.QuoteToASCII(key)+" of "+quote(s)); err != nil {
							return err
						}
					}
				case *json.Array:
					v = (*o.GetValues())[i]
				}
				if err := one(v, k); err != nil {
					return err
				}
				var sub any
				switch k.K {
				case "map":
					sub, _ = v.GetMap()
				case "array":
					sub, _ = v.GetArray()
				default:
					continue
				}
				if err := walk(sub, k); err != nil {
					return err
				}
			}
			return nil
		}
		return walk(m, want)
	})
