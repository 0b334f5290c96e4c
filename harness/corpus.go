package main

import (
	_ "embed"
	"strconv"
	"strings"
	"sync"
)

//go:embed corpus.txt
var corpusText string

// corpus are short texts, each of which drives the parser through code in a way no earlier one does;
// coverage-guided fuzzing found them (see FuzzParse).
var corpus = sync.OnceValue(func() []string {
	var l []string
	for _, q := range strings.Split(corpusText, "\n") {
		if s, err := strconv.Unquote(q); err == nil {
			l = append(l, s)
		}
	}
	return l
})
