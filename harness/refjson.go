package main

import (
	stdjson "encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

// readJSON reads one JSON text with Go's encoding/json, order and repeated names kept, numbers as text.
func readJSON(s string) (*N, error) {
	if !utf8.ValidString(s) {
		return nil, fmt.Errorf("not valid UTF-8")
	}
	if !stdjson.Valid([]byte(s)) {
		return nil, fmt.Errorf("not valid JSON")
	}
	d := stdjson.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	n, err := readValue(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one value")
	}
	return n, nil
}

func readValue(d *stdjson.Decoder) (*N, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch v := t.(type) {
	case nil:
		return &N{K: "null"}, nil
	case bool:
		return &N{K: "bool", S: Bin(strconv.FormatBool(v))}, nil
	case string:
		return &N{K: "string", S: Bin(v)}, nil
	case stdjson.Number:
		return &N{K: "num", S: Bin(v.String())}, nil
	case stdjson.Delim:
		n := &N{K: "array"}
		if v == '{' {
			n.K = "map"
		}
		for d.More() {
			if n.K == "map" {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.Keys = append(n.Keys, Bin(k.(string)))
			}
			e, err := readValue(d)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, e)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, fmt.Errorf("token %v", t)
}

// sameMeaning tells how what a JSON reader sees differs from a document.
func sameMeaning(r, n *N, path string) error {
	fail := func() error {
		return fmt.Errorf("%s: a JSON reader sees %s, not %s", path, clip(r.String()), clip(n.String()))
	}
	switch {
	case isIntKind(n.K):
		v, ok := new(big.Int).SetString(string(r.S), 10)
		if r.K != "num" || !ok || v.Cmp(n.big()) != 0 {
			return fail()
		}
		return nil
	case n.K == "float64":
		f, err := strconv.ParseFloat(string(r.S), 64)
		if r.K != "num" || err != nil || math.Float64bits(f) != math.Float64bits(n.f64()) {
			return fail()
		}
		return nil
	case n.K == "float32":
		f, err := strconv.ParseFloat(string(r.S), 32)
		if r.K != "num" || err != nil || math.Float32bits(float32(f)) != math.Float32bits(n.f32()) {
			return fail()
		}
		return nil
	case n.K == "time" || n.K == "err" || n.K == "errs" || n.K == "strs":
		return sameMeaning(r, normal(n), path)
	}
	if r.K != n.K || r.S != n.S || len(r.Keys) != len(n.Keys) || len(r.Kids) != len(n.Kids) {
		return fail()
	}
	for i := range n.Kids {
		p := path + "[" + strconv.Itoa(i) + "]"
		if n.K == "map" {
			if r.Keys[i] != n.Keys[i] {
				return fail()
			}
			p = path + "." + strconv.QuoteToASCII(string(n.Keys[i]))
		}
		if err := sameMeaning(r.Kids[i], n.Kids[i], p); err != nil {
			return err
		}
	}
	return nil
}
