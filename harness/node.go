package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// N is a document tree: what a document should hold, or how to build one.
// K: null bool string int.. uint.. float32 float64 time err errs strs map array.
// S: the scalar or error as text. Keys: member names, or the texts of errs and strs (noError stands for a nil error). V: which operation stores it.
type N struct {
	K    string `json:"k"`
	S    Bin    `json:"s,omitempty"`
	V    int    `json:"v,omitempty"`
	Keys []Bin  `json:"keys,omitempty"`
	Kids []*N   `json:"kids,omitempty"`
}

func (n *N) big() *big.Int { v, _ := new(big.Int).SetString(string(n.S), 10); return v }

func (n *N) f64() float64 {
	if n.K == "float32" {
		return float64(n.f32())
	}
	f, _ := strconv.ParseFloat(string(n.S), 64)
	return f
}

func (n *N) f32() float32 {
	f, _ := strconv.ParseFloat(string(n.S), 32)
	return float32(f)
}

// noError stands for a nil error in a list of errors.
const noError = Bin("\xffno error")

func f64N(f float64) *N { return &N{K: "float64", S: Bin(strconv.FormatFloat(f, 'g', -1, 64))} }
func f32N(f float32) *N {
	return &N{K: "float32", S: Bin(strconv.FormatFloat(float64(f), 'g', -1, 32))}
}

// wide is the double that a 32 bit float denotes: that of its shortest decimal text.
func wide(f float32) float64 {
	v, _ := strconv.ParseFloat(strconv.FormatFloat(float64(f), 'g', -1, 32), 64)
	return v
}

// refNum is the typed number that a JSON number text denotes.
func refNum(s string) *N {
	if strings.ContainsAny(s, ".eE") {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic("number out of range: " + s)
		}
		f32, err := strconv.ParseFloat(s, 32)
		if err == nil && math.Float64bits(wide(float32(f32))) == math.Float64bits(f) {
			return f32N(float32(f32))
		}
		return f64N(f)
	}
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("not an integer: " + s)
	}
	kinds := []string{"uint8", "uint16", "uint32", "uint64"}
	if strings.HasPrefix(s, "-") {
		kinds = []string{"int8", "int16", "int32", "int64"}
	}
	for _, k := range kinds {
		if fits(v, k) {
			return &N{K: k, S: Bin(v.String())}
		}
	}
	panic("integer out of range: " + s)
}

// normal is the document that serialising and parsing n yields.
func normal(n *N) *N {
	switch {
	case isIntKind(n.K):
		return refNum(string(n.S))
	case n.K == "float64":
		return refNum(floatText(n.f64(), 64))
	case n.K == "float32":
		return refNum(floatText(float64(n.f32()), 32))
	case n.K == "time":
		return &N{K: "string", S: Bin(timeOf(string(n.S)).Format("2006-01-02 15:04:05.000000"))}
	case n.K == "err":
		return &N{K: "string", S: n.S}
	case n.K == "errs" || n.K == "strs":
		r := &N{K: "array"}
		for _, e := range n.Keys {
			if n.K == "errs" && e == noError {
				r.Kids = append(r.Kids, &N{K: "null"})
			} else {
				r.Kids = append(r.Kids, &N{K: "string", S: e})
			}
		}
		return r
	}
	r := &N{K: n.K, S: n.S, Keys: n.Keys}
	for _, k := range n.Kids {
		r.Kids = append(r.Kids, normal(k))
	}
	return r
}

// floatText spells a finite float with a fraction and without an exponent.
func floatText(f float64, bits int) string {
	s := strconv.FormatFloat(f, 'f', -1, bits)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func (n *N) size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.size()
	}
	return s
}

func (n *N) depth() int {
	d := 0
	for _, k := range n.Kids {
		d = max(d, k.depth())
	}
	return d + 1
}

func (n *N) walk(f func(*N)) {
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

// resolve is the document that a syntax tree denotes: numbers typed, repeated names merged.
func resolve(n *N) *N {
	switch n.K {
	case "num":
		return refNum(string(n.S))
	case "map":
		r := &N{K: "map"}
		for i := range n.Keys {
			r.set(string(n.Keys[i]), resolve(n.Kids[i]))
		}
		return r
	}
	r := &N{K: n.K, S: n.S}
	for _, k := range n.Kids {
		r.Kids = append(r.Kids, resolve(k))
	}
	return r
}

// find is the last position of a member.
func (n *N) find(key string) int {
	for i := len(n.Keys) - 1; i >= 0; i-- {
		if string(n.Keys[i]) == key {
			return i
		}
	}
	return -1
}

// set stores a member as a dictionary does.
func (n *N) set(key string, v *N) {
	if i := n.find(key); i >= 0 {
		n.Kids[i] = v
		return
	}
	n.Keys = append(n.Keys, Bin(key))
	n.Kids = append(n.Kids, v)
}

func (n *N) clone() *N {
	r := &N{K: n.K, S: n.S, V: n.V, Keys: append([]Bin(nil), n.Keys...)}
	for _, k := range n.Kids {
		r.Kids = append(r.Kids, k.clone())
	}
	return r
}

func (n *N) equal(m *N) bool {
	if n.K != m.K || n.S != m.S || len(n.Keys) != len(m.Keys) || len(n.Kids) != len(m.Kids) {
		return false
	}
	for i := range n.Keys {
		if n.Keys[i] != m.Keys[i] {
			return false
		}
	}
	for i := range n.Kids {
		if !n.Kids[i].equal(m.Kids[i]) {
			return false
		}
	}
	return true
}

func (n *N) String() string {
	switch n.K {
	case "map":
		var p []string
		for i := range n.Keys {
			p = append(p, strconv.QuoteToASCII(string(n.Keys[i]))+": "+n.Kids[i].String())
		}
		return "{" + strings.Join(p, ", ") + "}"
	case "array":
		var p []string
		for _, k := range n.Kids {
			p = append(p, k.String())
		}
		return "[" + strings.Join(p, ", ") + "]"
	case "errs":
		return fmt.Sprintf("errors%q", n.Keys)
	case "strs":
		return fmt.Sprintf("texts%q", n.Keys)
	case "err":
		return "error(" + strconv.QuoteToASCII(string(n.S)) + ")"
	case "null":
		return "null"
	case "string":
		return strconv.QuoteToASCII(string(n.S))
	}
	return n.K + "(" + string(n.S) + ")"
}

// classesOf records what a document exercises.
func classesOf(x *Ctx, n *N) {
	n.walk(func(m *N) {
		x.Class("holds " + m.K)
		texts := []Bin{m.S}
		if m.K != "string" && m.K != "err" {
			texts = nil
		}
		texts = append(texts, m.Keys...)
		for _, s := range texts {
			for i := 0; i < len(s); i++ {
				if s[i] >= 0x80 {
					x.Class("non-ASCII text")
				}
				if s[i] < 0x20 || s[i] == '"' || s[i] == '\\' {
					x.Class("text that needs escapes")
				}
				if strings.IndexByte("{}[],:", s[i]) >= 0 {
					x.Class("structural characters in text")
				}
			}
			x.ClassIf(len(s) == 0, "empty text")
			x.ClassIf(len(s) > 60, "long text")
			x.ClassIf(len(s) > 1000, "text of more than 1000 bytes")
		}
		x.ClassIf((m.K == "map" || m.K == "array") && len(m.Kids) == 0, "empty container")
		x.ClassIf(len(m.Kids) > 7, "wide container")
		x.ClassIf(len(m.Kids) > 32, "container of more than 32")
		x.ClassIf(len(m.Kids) > 128, "container of more than 128")
	})
	x.ClassIf(n.depth() > 5, "nesting deeper than 4")
	x.ClassIf(n.depth() > 20, "nesting deeper than 19")
}

// Gen options for trees.
type treeOpt struct {
	depth     int
	width     int
	parsed    bool // only what Parse produces, numbers by text
	times     bool
	errs      bool
	nulls     bool // nulls made of nil values and containers
	strs      bool // lists of texts, which cannot be cloned
	nonFinite bool
	bulk      int // the largest bulk container; 0 stands for 300
	chain     int // the longest chain; 0 stands for 70
}

// genBulk draws a container with many cheap members.
func genBulk(t *rapid.T, o treeOpt, kinds ...string) *N {
	most := o.bulk
	if most == 0 {
		most = 300
	}
	w := oneOf(t, 9, 17, 33, 40, 65, 100, 129, 257)
	if chance(t, 1, 3) {
		w = between(t, 8, most)
	}
	w = min(w, most)
	if o.bulk == 0 && chance(t, 1, 8) {
		w = oneOf(t, 400, 513, 1025, 2049)
	}
	var l []*N
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		if chance(t, 1, 4) {
			l = append(l, genNode(t, treeOpt{depth: 1, width: 2, parsed: o.parsed, times: o.times, errs: o.errs, strs: o.strs, nulls: o.nulls}))
		} else {
			l = append(l, genScalar(t, o))
		}
	}
	n := &N{K: oneOf(t, kinds...), V: pick(t, 8)}
	turn := pick(t, 26)
	stem := oneOf(t, "n", "k-", "", "é", "long name number ", "*", "*")
	for i := 0; i < w; i++ {
		if n.K == "map" {
			k := stem + strconv.Itoa(i)
			if stem == "*" { // in no order
				k = string(rune('a'+(i*i*7+i*turn+turn)%26)) + strconv.Itoa(i)
			}
			n.Keys = append(n.Keys, Bin(k))
		}
		n.Kids = append(n.Kids, l[(i*i+i/3)%len(l)])
	}
	return n
}

// genChain draws nested containers, d deep, around a scalar.
func genChain(t *rapid.T, o treeOpt, d int) *N {
	n := genScalar(t, o)
	for i := 0; i < d; i++ {
		if bit.Draw(t, "") && i < d-1 {
			n = &N{K: "array", Kids: []*N{n}, V: pick(t, 8)}
			if chance(t, 1, 3) {
				n.Kids = append(n.Kids, genScalar(t, o))
			}
		} else {
			n = &N{K: "map", Keys: []Bin{Bin(genKey(t))}, Kids: []*N{n}, V: pick(t, 8)}
			if chance(t, 1, 3) {
				n.set(genKey(t), genScalar(t, o))
			}
		}
	}
	return n
}

func genMap(t *rapid.T, o treeOpt) *N {
	n := &N{K: "map"}
	w := pick(t, o.width+1)
	for i := 0; i < w; i++ {
		k := genKey(t)
		if n.find(k) >= 0 {
			k += strconv.Itoa(i)
			if n.find(k) >= 0 {
				continue
			}
		}
		if i > 0 && len(n.Kids) > 0 && chance(t, 1, 6) {
			last := len(n.Kids) - 1
			if w := nearText(t, string(n.Keys[last])); bit.Draw(t, "") && n.find(w) < 0 {
				k = w
			}
			n.Keys = append(n.Keys, Bin(k))
			n.Kids = append(n.Kids, near(t, n.Kids[last]))
			continue
		}
		n.Keys = append(n.Keys, Bin(k))
		n.Kids = append(n.Kids, genNode(t, o))
	}
	n.V = pick(t, 8)
	return n
}

func genArray(t *rapid.T, o treeOpt) *N {
	n := &N{K: "array"}
	w := pick(t, o.width+1)
	for i := 0; i < w; i++ {
		if i > 0 && chance(t, 1, 6) {
			n.Kids = append(n.Kids, near(t, n.Kids[i-1]))
			continue
		}
		n.Kids = append(n.Kids, genNode(t, o))
	}
	n.V = pick(t, 8)
	return n
}

func genScalar(t *rapid.T, o treeOpt) *N {
	if o.nonFinite && chance(t, 1, 25) {
		return &N{K: oneOf(t, "float32", "float64"), S: Bin(oneOf(t, "NaN", "+Inf", "-Inf")), V: pick(t, 8)}
	}
	n := &N{}
	switch c := pick(t, 20); {
	case c < 2:
		n.K = "null"
		if o.nulls && bit.Draw(t, "") {
			n.V = between(t, 8, 13)
			return n
		}
	case c < 4:
		n.K, n.S = "bool", Bin(oneOf(t, "false", "true"))
	case c < 11:
		n.K, n.S = "string", Bin(genText(t))
	case o.parsed:
		n.K, n.S = "num", Bin(numText(t))
	case c < 16:
		k := oneOf(t, append(append([]string{}, intKinds...), uintKinds...)...)
		n.K, n.S = k, Bin(genIntOf(t, k).String())
	case c < 17:
		n = f64N(genFloat64(t))
	case c < 18:
		n = f32N(genFloat32(t))
	case c == 18 && o.times:
		n.K, n.S = "time", Bin(timeText(genTime(t)))
	case c == 19 && o.errs:
		n.K = oneOf(t, "errs", "err")
		if o.strs && chance(t, 1, 3) {
			n.K = "strs"
		}
		if n.K == "err" {
			n.S = Bin(genErrorText(t))
			break
		}
		for i, w := 0, pick(t, 4); i < w; i++ {
			if n.K == "errs" && chance(t, 1, 10) {
				n.Keys = append(n.Keys, noError)
			} else {
				n.Keys = append(n.Keys, Bin(genErrorText(t)))
			}
		}
	default:
		n.K, n.S = "string", Bin(genText(t))
	}
	n.V = pick(t, 8)
	return n
}

// genErrorText draws the text of an error, sometimes one of those that certain types of errors have.
func genErrorText(t *rapid.T) string {
	switch pick(t, 8) {
	case 0, 1:
		return genText(t) + urlErrorMiddle + oneOf(t, "e", " e ", genText(t), genText(t))
	case 2:
		return "<nil>"
	}
	return genText(t)
}

func genNode(t *rapid.T, o treeOpt) *N {
	if o.depth > 0 {
		switch pick(t, 6) {
		case 0, 1:
			o.depth--
			return genMap(t, o)
		case 2:
			o.depth--
			return genArray(t, o)
		}
	}
	return genScalar(t, o)
}

// genDoc draws a root map: mostly small, sometimes wide or deep.
func genDoc(t *rapid.T, o treeOpt) *N {
	if chance(t, 1, 40) {
		n := genBulk(t, o, "array", "map")
		if n.K == "map" && bit.Draw(t, "") {
			return n
		}
		r := genMap(t, treeOpt{depth: 0, width: 2, parsed: o.parsed, times: o.times, errs: o.errs, strs: o.strs, nulls: o.nulls})
		r.set(genKey(t), n)
		if chance(t, 1, 3) {
			r.set(genKey(t), genScalar(t, o))
		}
		return r
	}
	switch pick(t, 10) {
	case 0: // a chain of nested containers
		d := between(t, 3, 12)
		if chance(t, 1, 6) {
			most := o.chain
			if most == 0 {
				most = 70
			}
			d = between(t, 13, most)
			if o.chain == 0 && chance(t, 1, 10) {
				d = oneOf(t, 101, 129, 140, 257, 300, 513, 1025)
			}
		}
		n := genChain(t, o, d)
		if n.K == "map" {
			return n
		}
		return &N{K: "map", Keys: []Bin{"a"}, Kids: []*N{n}}
	case 1: // wide
		n := &N{K: "map"}
		a := &N{K: "array"}
		for i, w := 0, between(t, 8, 20); i < w; i++ {
			if bit.Draw(t, "") {
				a.Kids = append(a.Kids, genScalar(t, o))
			} else {
				n.set(genKey(t), genScalar(t, o))
			}
		}
		n.set("list", a)
		return n
	}
	return genMap(t, o)
}

// remove takes a member out.
func (n *N) remove(key string) {
	if i := n.find(key); i >= 0 {
		n.Keys = append(append([]Bin{}, n.Keys[:i]...), n.Keys[i+1:]...)
		n.Kids = append(append([]*N{}, n.Kids[:i]...), n.Kids[i+1:]...)
	}
}
