package main

import (
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// numberShape is how JSON spells a number.
var numberShape = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

// representable tells whether a number text is one of JSON and in the range that a document can hold.
func representable(s string) bool {
	if !numberShape.MatchString(s) {
		return false
	}
	if strings.ContainsAny(s, ".eE") {
		f, err := strconv.ParseFloat(s, 64)
		return err == nil && !math.IsInf(f, 0)
	}
	v, _ := new(big.Int).SetString(s, 10)
	if strings.HasPrefix(s, "-") {
		return fits(v, "int64")
	}
	return fits(v, "uint64")
}

const (
	looseNo = iota
	looseYes
	looseUnknown // backslashes outside of strings: nothing is claimed
)

// loose judges a text by the JSON grammar without its rules for commas and for the content of strings:
// what it refuses is malformed by any reading.
func loose(s string) int {
	var toks []string
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '\\':
			return looseUnknown
		case strings.IndexByte(" \n\r\t", c) >= 0:
			i++
		case strings.IndexByte("{}[]:,", c) >= 0:
			toks = append(toks, s[i:i+1])
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return looseNo
			}
			toks = append(toks, "\"")
			i = j + 1
		default:
			j := i
			for j < len(s) && strings.IndexByte(" \n\r\t{}[]:,\"\\", s[j]) < 0 {
				j++
			}
			w := s[i:j]
			if w != "true" && w != "false" && w != "null" && !representable(w) {
				if strings.IndexByte(s[j:], '\\') >= 0 {
					return looseUnknown
				}
				return looseNo
			}
			toks = append(toks, "w")
			i = j
		}
	}
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
		return looseNo
	}
	at := 0
	peek := func() string {
		if at < len(toks) {
			return toks[at]
		}
		return ""
	}
	var value func() bool
	value = func() bool {
		t := peek()
		at++
		switch t {
		case "\"":
			return true
		case "w":
			// text without a separator after it belongs to it
			return strings.Contains(",]}", peek()) && peek() != ""
		case "[":
			for {
				switch peek() {
				case ",":
					at++
				case "]":
					at++
					return true
				case "\"", "w", "[", "{":
					if !value() {
						return false
					}
				default:
					return false
				}
			}
		case "{":
			for {
				switch peek() {
				case ",":
					at++
				case "}":
					at++
					return true
				case "\"":
					at++
					if peek() != ":" {
						return false
					}
					at++
					if !value() {
						return false
					}
				default:
					return false
				}
			}
		}
		return false
	}
	if value() && at == len(toks) {
		return looseYes
	}
	return looseNo
}

// strictValue is the document that a text denotes, nil when it is no valid text of a document that can be represented.
func strictValue(s string) *N {
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") || !utf8.ValidString(s) {
		return nil
	}
	n, err := readJSON(s)
	if err != nil {
		return nil
	}
	ok := true
	n.walk(func(m *N) {
		if m.K == "num" && !representable(string(m.S)) {
			ok = false
		}
	})
	if !ok {
		return nil
	}
	return n
}
