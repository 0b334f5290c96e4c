package main

import (
	"testing"
)

// FuzzParse searches, guided by the coverage of the library, for texts on which one of the parse properties fails:
// go test -fuzz=FuzzParse -fuzztime=10m
// The interesting texts it found are what corpus.txt is made of.
func FuzzParse(f *testing.F) {
	for _, s := range scraps {
		f.Add([]byte("{\"a\":" + s + "}"))
		f.Add([]byte(s))
	}
	for _, s := range corpus() {
		f.Add([]byte(s))
	}
	c04 := props["C04"]
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > 400 {
			return
		}
		s := string(b)
		if err := c04.run(bytesCase{Text: Bin(s)}, newCtx()); err != nil {
			t.Fatal("C04", err)
		}
		if n := strictValue(s); n != nil {
			if err := props["C01"].run(textCase{n, Bin(s)}, newCtx()); err != nil {
				t.Fatal("C01", err)
			}
		} else if loose(s) == looseNo {
			if err := props["C05"].run(badCase{Bin(s), "malformed text"}, newCtx()); err != nil {
				t.Fatal("C05", err)
			}
		}
	})
}
