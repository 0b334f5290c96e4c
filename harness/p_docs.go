package main

import (
	"errors"
	"fmt"
	"math"
	"net/url"
	"os/exec"
	"reflect"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/matehaxor03/holistic_json/json"
)

var full = treeOpt{depth: 3, width: 4, times: true, errs: true, strs: true, nulls: true}

// ---- C02: serialise and parse again

type tripCase struct {
	Doc  *N  `json:"doc,omitempty"`
	Syn  *N  `json:"syn,omitempty"`
	Text Bin `json:"text,omitempty"`
}

var _ = register(Prop{ID: "C02", Quick: 8000, Thor: 320000, After: []string{"write", "parse"},
	Rule: "documents built through random typed operations (by value, by pointer, as object, as value) from text, booleans, integers of all widths, finite floats, times, lists of errors, nulls and nested containers, or parsed from generated text; non-trivial: at least 3 nodes besides the root, or a text that needs escapes, a float or a time"},
	func(t *rapid.T) tripCase {
		if chance(t, 1, 4) {
			syn, toks, ws := genDocText(t, 3, 4)
			return tripCase{Syn: syn, Text: Bin(join(toks, ws))}
		}
		return tripCase{Doc: genDoc(t, full)}
	},
	func(c tripCase, x *Ctx) error {
		var m *json.Map
		var want *N
		if c.Doc != nil {
			m = buildMap(c.Doc)
			want = normal(c.Doc)
			classesOf(x, c.Doc)
			x.Class("built")
		} else {
			var err error
			if m, err = parse(string(c.Text)); err != nil {
				return err
			}
			want = normal(resolve(c.Syn))
			classesOf(x, want)
			x.Class("parsed")
		}
		x.steps += want.size()
		x.Nontrivial(want.size() > 3 || x.classes["text that needs escapes"] || x.classes["holds float64"] || x.classes["holds time"])
		text, e := toJSON(m)
		if len(e) > 0 {
			return fmt.Errorf("%s is not serialised: %s", clip(want.String()), errText(e))
		}
		back, err := parse(text)
		if err != nil {
			return fmt.Errorf("serialised to %s, but %v", quote(text), err)
		}
		if err := cmpMap(back, want, "document read back from "+quote(text), true); err != nil {
			return err
		}
		if c.Doc != nil {
			if err := errorsBack(c.Doc, back); err != nil {
				return fmt.Errorf("read back from %s: %v", quote(text), err)
			}
		}
		again, e := toJSON(back)
		if len(e) > 0 || again != text {
			return fmt.Errorf("serialised to %s, after parsing that to %s %s", quote(text), quote(again), errText(e))
		}
		return nil
	})

// errorsBack tells whether the lists of errors of a document can be read as such after it was serialised and parsed.
func errorsBack(n *N, obj any) error {
	for i, k := range n.Kids {
		var v *json.Value
		switch o := obj.(type) {
		case *json.Map:
			v = o.GetValue(string(n.Keys[i]))
		case *json.Array:
			v = (*o.GetValues())[i]
		}
		switch k.K {
		case "map":
			m, _ := v.GetMap()
			if err := errorsBack(k, m); err != nil {
				return err
			}
		case "array":
			a, _ := v.GetArray()
			if err := errorsBack(k, a); err != nil {
				return err
			}
		case "errs", "strs":
			l, e := v.GetErrors()
			if len(e) > 0 || len(l) != len(k.Keys) {
				return fmt.Errorf("%s reads as the errors %q, errors %s", clip(k.String()), l, errText(e))
			}
			for j := range l {
				if l[j] == nil || l[j].Error() != string(k.Keys[j]) && k.Keys[j] != noError {
					return fmt.Errorf("%s reads as the errors %q", clip(k.String()), l)
				}
			}
		}
	}
	return nil
}

// ---- C03: any JSON reader sees the same

type readerCase struct {
	Root *N  `json:"root"`
	Bad  int `json:"bad"`
}

var _ = register(Prop{ID: "C03", Quick: 40000, Thor: 1200000, After: []string{"write", "parse"},
	Rule:   "maps and arrays built as for C02 and read with Go's encoding/json, one in six with a not-a-number or infinity of either width, by value or pointer, somewhere in it; non-trivial: as for C02, or a number that JSON cannot express",
	Assume: []string{"encoding/json is the independent JSON reader"}},
	func(t *rapid.T) readerCase {
		c := readerCase{}
		if bit.Draw(t, "") {
			c.Root = genDoc(t, full)
		} else {
			c.Root = genArray(t, full)
		}
		if chance(t, 1, 6) {
			bad := &N{K: oneOf(t, "float32", "float64"), S: Bin(oneOf(t, "NaN", "+Inf", "-Inf")), V: pick(t, 8)}
			var conts []*N
			c.Root.walk(func(n *N) {
				if n.K == "map" || n.K == "array" {
					conts = append(conts, n)
				}
			})
			at := conts[pick(t, len(conts))]
			if at.K == "map" {
				at.set(genKey(t), bad)
			} else {
				i := pick(t, len(at.Kids)+1)
				at.Kids = append(at.Kids[:i:i], append([]*N{bad}, at.Kids[i:]...)...)
			}
			c.Bad = 1
		}
		return c
	},
	func(c readerCase, x *Ctx) error {
		classesOf(x, c.Root)
		var obj any
		if c.Root.K == "map" {
			obj = buildMap(c.Root)
		} else {
			obj = buildArray(c.Root)
		}
		bad := false
		c.Root.walk(func(n *N) {
			if isFloatKind(n.K) && (math.IsNaN(n.f64()) || math.IsInf(n.f64(), 0)) {
				bad = true
			}
		})
		x.steps += c.Root.size()
		x.Nontrivial(bad || c.Root.size() > 3 || x.classes["text that needs escapes"] || x.classes["holds float64"] || x.classes["holds time"])
		text, e := toJSON(obj)
		if bad {
			x.Class("number that JSON cannot express")
			if len(e) == 0 {
				return fmt.Errorf("%s is serialised to %s without an error", clip(c.Root.String()), quote(text))
			}
			return nil
		}
		if len(e) > 0 {
			return fmt.Errorf("%s is not serialised: %s", clip(c.Root.String()), errText(e))
		}
		r, err := readJSON(text)
		if err != nil {
			return fmt.Errorf("%s is serialised to %s: %v", clip(c.Root.String()), quote(text), err)
		}
		if err := sameMeaning(r, c.Root, "document"); err != nil {
			return fmt.Errorf("serialised to %s: %v", quote(text), err)
		}
		return nil
	})

// ---- C21: serialisation appends, repeats and composes

type appendCase struct {
	Val    *N  `json:"val"`
	Prefix Bin `json:"prefix"`
	Fill   int `json:"fill,omitempty"` // how often the prefix is written
}

var _ = register(Prop{ID: "C21", Quick: 9000, Thor: 240000, After: []string{"write"},
	Rule: "a generated map, array or scalar of any type, serialised into a builder that already holds generated text, several times and through every entry point (the object, the object by value, in a value, in a value by value, as object of a value); non-trivial: a container with an element, a non-empty text, or a float, time or list of errors"},
	func(t *rapid.T) appendCase {
		c := appendCase{Prefix: Bin(genText(t))}
		if chance(t, 1, 20) {
			c.Fill = oneOf(t, 500, 1100, 4200, 8300, 17000, 66000, 132000)/max(1, len(c.Prefix)) + pick(t, 40)
		}
		switch pick(t, 3) {
		case 0:
			c.Val = genDoc(t, full)
		case 1:
			c.Val = genArray(t, full)
			if chance(t, 1, 15) {
				c.Val = genBulk(t, full, "array")
			}
		default:
			c.Val = genScalar(t, full)
			if chance(t, 1, 20) {
				c.Val = &N{K: oneOf(t, "float32", "float64"), S: Bin(oneOf(t, "NaN", "+Inf", "-Inf")), V: pick(t, 8)}
			} else if chance(t, 1, 20) { // what is not UTF-8 is not changed either
				c.Val = &N{K: oneOf(t, "errs", "strs", "strs", "string"), S: Bin(genWord(t, 0, 3) + oneOf(t, "\xff", "\xc3", "\xed\xa0\x80", "\x80 ")), V: pick(t, 8)}
				if c.Val.K != "string" {
					c.Val.Keys = []Bin{Bin(genText(t)), c.Val.S, Bin(genText(t))}
					c.Val.S = ""
				}
			}
		}
		return c
	},
	func(c appendCase, x *Ctx) error {
		n := c.Val
		if isFloatKind(n.K) && (math.IsNaN(n.f64()) || math.IsInf(n.f64(), 0)) {
			x.Class("a number that cannot be written")
			x.Nontrivial(true)
			v := makeValue(n)
			for _, o := range []any{native(n), ptrTo(native(n)), v, *v, v.GetObject(), json.NewValue(ptrTo(native(n)))} {
				var b strings.Builder
				b.WriteString(string(c.Prefix))
				if e := json.ConvertInterfaceValueToJSONStringValue(&b, o); len(e) == 0 {
					return fmt.Errorf("%s is serialised to %s and no error", n, quote(b.String()))
				}
				if s, e := json.ConvertInterfaceValueToStringValue(o); len(e) == 0 {
					return fmt.Errorf("the text of %s is %q and no error", n, s)
				}
			}
			return nil
		}
		classesOf(x, n)
		x.Nontrivial(len(n.Kids) > 0 || len(n.Keys) > 0 || n.K == "string" && n.S != "" || isFloatKind(n.K) || n.K == "time")
		v := makeValue(n)
		type entry struct {
			name string
			obj  any
		}
		var forms []entry
		var builderForms []func(*strings.Builder) []error
		switch n.K {
		case "map":
			m, e := v.GetMap()
			if len(e) > 0 || m == nil {
				return fmt.Errorf("no map: %s", errText(e))
			}
			forms = append(forms, entry{"map", m}, entry{"map by value", *m}, entry{"value of map", json.NewValue(m)}, entry{"value of map by value", json.NewValue(*m)}, entry{"value by value of map by value", json.NewValueValue(*m)})
			builderForms = append(builderForms, m.ToJSONString)
		case "array":
			a, e := v.GetArray()
			if len(e) > 0 || a == nil {
				return fmt.Errorf("no array: %s", errText(e))
			}
			forms = append(forms, entry{"array", a}, entry{"array by value", *a}, entry{"value of array", json.NewValue(a)}, entry{"value of array by value", json.NewValue(*a)}, entry{"value by value of array", json.NewValueValue(a)})
			builderForms = append(builderForms, a.ToJSONString)
		case "null":
			forms = append(forms, entry{"nil", nil}, entry{"nil *string", (*string)(nil)}, entry{"nil value", (*json.Value)(nil)}, entry{"nil map", (*json.Map)(nil)})
		default:
			forms = append(forms, entry{"native", native(n)}, entry{"native by pointer", ptrTo(native(n))}, entry{"value of pointer", json.NewValue(ptrTo(native(n)))}, entry{"value by value", json.NewValueValue(native(n))})
		}
		forms = append(forms, entry{"value", v}, entry{"value by value", *v}, entry{"object of the value", v.GetObject()})
		before := dump(v)
		first := ""
		for _, f := range forms {
			f := f
			builderForms = append(builderForms, func(b *strings.Builder) []error { return json.ConvertInterfaceValueToJSONStringValue(b, f.obj) })
		}
		prefix := strings.Repeat(string(c.Prefix), max(1, c.Fill))
		x.ClassIf(len(prefix) > 60000, "builder holds more than 60000 bytes")
		for i, w := range builderForms {
			var b strings.Builder
			e := w(&b)
			if len(e) > 0 {
				return fmt.Errorf("%s is not serialised through entry point %d: %s", clip(n.String()), i, errText(e))
			}
			if i == 0 {
				first = b.String()
				if first == "" {
					return fmt.Errorf("%s is serialised to nothing", clip(n.String()))
				}
			} else if b.String() != first {
				return fmt.Errorf("%s is serialised to %s, and through entry point %d to %s", clip(n.String()), quote(first), i, quote(b.String()))
			}
			x.steps++
			if i > 2 && i != len(builderForms)-1 {
				continue
			}
			x.Upset()
			var p strings.Builder
			p.WriteString(prefix)
			for j := 1; j <= 2; j++ {
				if e := w(&p); len(e) > 0 {
					return fmt.Errorf("%s is not serialised again: %s", clip(n.String()), errText(e))
				}
				if want := prefix + strings.Repeat(first, j); p.String() != want {
					now := p.String()
					at := 0
					for at < len(now) && at < len(want) && now[at] == want[at] {
						at++
					}
					return fmt.Errorf("%s, serialised to %s, is appended to a text of %d bytes, %s: at byte %d there is %s, which should be %s", clip(n.String()), quote(first), len(prefix), quote(string(c.Prefix)), at, quote(clip(now[at:])), quote(clip(want[at:])))
				}
			}
			if e := w(nil); len(e) == 0 {
				return fmt.Errorf("%s: a missing builder is not an error (entry point %d)", clip(n.String()), i)
			}
		}
		if after := dump(v); after != before {
			return fmt.Errorf("serialising changes %s to %s", clip(before), clip(after))
		}
		conv := func(o any) (string, error) {
			s, e := toJSON(o)
			if len(e) > 0 {
				return "", fmt.Errorf("an element of %s is not serialised: %s", clip(n.String()), errText(e))
			}
			return s, nil
		}
		switch n.K {
		case "map":
			m, _ := v.GetMap()
			var parts []string
			vals := *m.Values().GetValues()
			for i, k := range m.GetKeys() {
				ks, err := conv(k)
				if err != nil {
					return err
				}
				vs, err := conv(m.GetValue(k))
				if err != nil {
					return err
				}
				if i < len(vals) {
					if s, _ := conv(vals[i]); s != vs {
						return fmt.Errorf("member %q is serialised to %s and, in the list of values, to %s", k, quote(vs), quote(s))
					}
				}
				if o := m.GetObjectForMap(k); o != nil {
					if s, err := conv(o); err != nil || s != vs {
						return fmt.Errorf("member %q is serialised to %s and, as an object, to %s %v", k, quote(vs), quote(s), err)
					}
				}
				parts = append(parts, ks+":"+vs)
			}
			if want := "{" + strings.Join(parts, ",") + "}"; want != first {
				return fmt.Errorf("%s is serialised to %s, its members to %s", clip(n.String()), quote(first), quote(want))
			}
		case "array":
			a, _ := v.GetArray()
			var parts []string
			for _, e := range *a.GetValues() {
				s, err := conv(e)
				if err != nil {
					return err
				}
				parts = append(parts, s)
			}
			if want := "[" + strings.Join(parts, ",") + "]"; want != first {
				return fmt.Errorf("%s is serialised to %s, its elements to %s", clip(n.String()), quote(first), quote(want))
			}
			// read as errors: the texts of the elements
			var texts []string
			var bad []error
			for _, e := range *a.GetValues() {
				s, err := json.ConvertInterfaceValueToStringValue(e)
				texts, bad = append(texts, s), append(bad, err...)
			}
			for _, w := range []*json.Value{v, json.NewValue(a), json.NewValue(*a)} {
				l, e := w.GetErrors()
				if len(bad) > 0 {
					if len(e) == 0 || l != nil {
						return fmt.Errorf("%s read as errors gives %q, errors %s", clip(n.String()), l, errText(e))
					}
					continue
				}
				x.Class("array read as errors")
				if len(e) > 0 || len(l) != len(texts) {
					return fmt.Errorf("%s read as errors gives %q, errors %s", clip(n.String()), l, errText(e))
				}
				for i := range l {
					if l[i] == nil || l[i].Error() != texts[i] {
						return fmt.Errorf("%s read as errors gives %v for the text %q", clip(n.String()), l[i], texts[i])
					}
				}
			}
		case "errs", "strs":
			var parts []string
			for i, k := range n.Keys {
				if n.K == "errs" && k == noError {
					parts = append(parts, "null")
					continue
				}
				js, err := conv(string(k))
				if err != nil {
					return err
				}
				parts = append(parts, js)
				for _, es := range []error{makeError(string(k), n.V+i), &url.Error{Op: string(k), URL: "u v", Err: errors.New(string(k))}, &exec.ExitError{Stderr: []byte(k)}} {
					if js, err = conv(es.Error()); err != nil {
						return err
					}
					pe := es
					for _, o := range []any{es, &pe, json.NewValue(es), json.NewValue(&pe)} {
						got, err := conv(o)
						if err != nil {
							return err
						}
						if got != js {
							return fmt.Errorf("the error %q (%T) is serialised to %s", es.Error(), es, quote(got))
						}
						if s, e := json.ConvertInterfaceValueToStringValue(o); len(e) > 0 || s != es.Error() {
							return fmt.Errorf("the text of the error %q (%T) is %q, errors %s", es.Error(), es, s, errText(e))
						}
					}
				}
			}
			if want := "[" + strings.Join(parts, ",") + "]"; want != first {
				return fmt.Errorf("%s is serialised to %s", clip(n.String()), quote(first))
			}
		default:
			want := first
			if n.K == "string" || n.K == "err" {
				want = string(n.S)
			} else if n.K == "time" {
				want = timeOf(string(n.S)).Format("2006-01-02 15:04:05.000000")
			}
			for _, f := range forms {
				if s, e := json.ConvertInterfaceValueToStringValue(f.obj); len(e) > 0 || s != want {
					return fmt.Errorf("the text of %s (%s) is %s, errors %s", clip(n.String()), f.name, quote(s), errText(e))
				}
			}
		}
		return nil
	})

// ---- C23: built from native collections

type nativeCase struct {
	Elems []*N  `json:"elems"`
	Forms []int `json:"forms"`
	Keys  []Bin `json:"keys"`
	Same  []int `json:"same"` // which earlier element is this same object; itself when it is an object of its own
	Nil   int   `json:"nil"`
}

// nativeElem is an element as a Go program would put it into a list or map.
func nativeElem(n *N, form int) any {
	switch n.K {
	case "map":
		m := buildMap(n)
		return []any{m, *m, json.NewValue(m), json.NewValueValue(m), json.NewValue(*m), json.NewValueValue(*m)}[form%6]
	case "array":
		a := buildArray(n)
		return []any{a, *a, json.NewValue(a), json.NewValueValue(a), json.NewValue(*a), json.NewValueValue(*a)}[form%6]
	case "null":
		return []any{nil, (*string)(nil), json.NewValue(nil), json.NewValueValue(nil), (*json.Map)(nil), (*int64)(nil)}[form%6]
	}
	v := native(n)
	return []any{v, ptrTo(v), json.NewValue(v), json.NewValueValue(v), json.NewValue(ptrTo(v)), v}[form%6]
}

var _ = register(Prop{ID: "C23", Quick: 12000, Thor: 480000, After: []string{"native"},
	Rule:   "Go lists and maps of zero to seven (rarely up to 520) generated elements (scalars of every type by value and by pointer, nil, typed nil pointers, values, maps and arrays by pointer and by value), some the same object several times, absent lists and maps; read back, serialised, compared with a container filled one by one, then both sides changed, and what was given by pointer changed through that pointer; non-trivial: at least two elements",
	Assume: []string{"not claimed: the order of the names of a map built from a Go map, which has none"}},
	func(t *rapid.T) nativeCase {
		c := nativeCase{Nil: pick(t, 20)}
		used := map[string]bool{}
		w := pick(t, 8)
		if chance(t, 1, 30) {
			w = between(t, 8, 60)
		}
		var few []*N // what a list that is much longer is made of
		if chance(t, 1, 80) {
			w = between(t, 70, 520)
			for i := 0; i < 4; i++ {
				few = append(few, genNode(t, treeOpt{depth: 0, width: 2, times: true, errs: true, strs: true}))
			}
		}
		for i := 0; i < w; i++ {
			if few != nil {
				c.Keys = append(c.Keys, Bin(fmt.Sprintf("k%d", i*7919%1009)))
				c.Same = append(c.Same, i)
				c.Elems = append(c.Elems, few[oneOf(t, 0, 0, 0, 1, 1, 2, 3)])
				c.Forms = append(c.Forms, pick(t, 6))
				continue
			}
			k := genKey(t)
			for used[k] {
				k += "+"
			}
			used[k] = true
			c.Keys = append(c.Keys, Bin(k))
			if i > 0 && chance(t, 1, 5) {
				j := c.Same[pick(t, i)]
				c.Elems = append(c.Elems, c.Elems[j])
				c.Forms = append(c.Forms, c.Forms[j])
				c.Same = append(c.Same, j)
				continue
			}
			c.Same = append(c.Same, i)
			c.Elems = append(c.Elems, genNode(t, treeOpt{depth: 1, width: 2, times: true, errs: true, strs: true}))
			c.Forms = append(c.Forms, pick(t, 6))
		}
		return c
	},
	func(c nativeCase, x *Ctx) error {
		var list []any
		goMap := map[string]any{}
		for i, n := range c.Elems {
			x.Class(n.K)
			e, f := nativeElem(n, c.Forms[i]), nativeElem(n, c.Forms[i])
			if j := c.Same[i]; j != i {
				e, f = list[j], goMap[string(c.Keys[j])]
				x.Class(fmt.Sprintf("the same %T again", e))
			}
			x.Class(fmt.Sprintf("%T", e))
			list = append(list, e)
			goMap[string(c.Keys[i])] = f
		}
		x.Nontrivial(len(list) >= 2)
		x.steps += len(list)
		// lists
		want := &N{K: "array", Kids: c.Elems}
		a := json.NewArrayOfValues(&list)
		single := json.NewArray()
		for _, n := range c.Elems {
			appendTo(single, n)
		}
		if err := cmpArray(a, want, "array", true); err != nil {
			return err
		}
		d := dump(a)
		if s := dump(single); s != d {
			return fmt.Errorf("built at once it is %s, one by one %s", clip(d), clip(s))
		}
		t1, e1 := toJSON(a)
		t2, e2 := toJSON(single)
		if len(e1)+len(e2) > 0 || t1 != t2 {
			return fmt.Errorf("built at once it is serialised to %s %s, one by one to %s %s", quote(t1), errText(e1), quote(t2), errText(e2))
		}
		keep := append([]any{}, list...)
		spare := append(list, "spare")
		spare[len(spare)-1] = "more"
		for i := range list {
			list[i] = "changed"
		}
		if s := dump(a); s != d {
			return fmt.Errorf("changing the Go list changes %s to %s", clip(d), clip(s))
		}
		copy(list, keep)
		a.AppendStringValue("end")
		if len(c.Elems) > 0 {
			a.SetValueAtIndex(0, json.NewValue("first"))
			a.RemoveValueAtIndex(len(c.Elems) - 1)
		}
		if len(list) != len(keep) || spare[len(spare)-1] != "more" {
			return fmt.Errorf("changing the array changes the Go list")
		}
		for i := range list {
			if !sameElem(list[i], keep[i]) {
				return fmt.Errorf("changing the array changes element %d of the Go list", i)
			}
		}
		// one element changed, the others not
		if len(c.Elems) > 1 {
			var again []any
			for i, n := range c.Elems {
				e := nativeElem(n, c.Forms[i])
				if j := c.Same[i]; j != i {
					e = again[j]
				}
				again = append(again, e)
			}
			b := json.NewArrayOfValues(&again)
			at := c.Nil % len(c.Elems)
			if v := (*b.GetValues())[at]; v != nil {
				v.SetStringValue("changed")
			}
			for i, v := range *b.GetValues() {
				if c.Same[i] == c.Same[at] {
					ty := fmt.Sprintf("%T", again[i])
					if i == at || strings.HasSuffix(ty, "json.Value") {
						continue
					}
					x.Class("one of two places of a " + ty + " changed")
				}
				if err := cmpValue(v, c.Elems[i], fmt.Sprintf("element %d, after a change of element %d", i, at), true); err != nil {
					return err
				}
			}
		}
		// maps
		m := json.NewMapOfValues(&goMap)
		keys := m.GetKeys()
		if len(keys) != len(goMap) {
			return fmt.Errorf("built from %d members, the map has the names %q", len(goMap), keys)
		}
		ordered := &N{K: "map"}
		for _, k := range keys {
			i := (&N{Keys: c.Keys}).find(k)
			if i < 0 || ordered.find(k) >= 0 {
				return fmt.Errorf("the map has the names %q", keys)
			}
			ordered.set(k, c.Elems[i])
		}
		if err := cmpMap(m, ordered, "map", true); err != nil {
			return err
		}
		text, e := toJSON(m)
		if len(e) > 0 {
			return fmt.Errorf("the map is not serialised: %s", errText(e))
		}
		r, err := readJSON(text)
		if err == nil {
			err = sameMeaning(r, ordered, "map")
		}
		if err != nil {
			return fmt.Errorf("the map is serialised to %s: %v", quote(text), err)
		}
		d = dump(m)
		was := len(goMap)
		goMap["added later"] = 1
		for k := range goMap {
			goMap[k] = "changed"
		}
		if len(c.Keys) > 0 {
			delete(goMap, string(c.Keys[0]))
		}
		if s := dump(m); s != d {
			return fmt.Errorf("changing the Go map changes %s to %s", clip(d), clip(s))
		}
		now := len(goMap)
		m.SetStringValue("set later", "x")
		if len(keys) > 0 {
			m.SetStringValue(keys[0], "y")
			ordered.set(keys[0], &N{K: "string", S: "y"})
			last := keys[len(keys)-1]
			if ok, err := m.RemoveKey(last); !ok || err != nil {
				return fmt.Errorf("RemoveKey(%q) of a map built from a Go map gives %v, %v", last, ok, err)
			}
			ordered.remove(last)
		}
		ordered.remove("set later")
		ordered.set("set later", &N{K: "string", S: "x"})
		if len(goMap) != now || now < was-1 {
			return fmt.Errorf("changing the map changes the Go map")
		}
		for k, v := range goMap {
			if v != "changed" {
				return fmt.Errorf("changing the map changes %q of the Go map to %v", k, v)
			}
		}
		if err := cmpMap(m, ordered, "map changed after it was built", false); err != nil {
			return err
		}
		// what is given by pointer stays shared
		list = nil
		goMap = map[string]any{}
		for i, n := range c.Elems {
			e := nativeElem(n, c.Forms[i])
			if j := c.Same[i]; j != i {
				e = list[j]
			}
			list = append(list, e)
			goMap[string(c.Keys[i])] = e
		}
		a, m = json.NewArrayOfValues(&list), json.NewMapOfValues(&goMap)
		two := json.NewArrayOfValues(&list)
		for i, n := range c.Elems {
			now := changeShared(list[i])
			if now == nil {
				continue
			}
			x.Class(fmt.Sprintf("change through %T", list[i]))
			var all []*json.Value
			for k := range c.Elems {
				if c.Same[k] == c.Same[i] {
					all = append(all, (*a.GetValues())[k], (*two.GetValues())[k], m.GetValue(string(c.Keys[k])))
				}
			}
			for _, v := range all {
				if err := cmpValue(v, now, "element", false); err != nil {
					return fmt.Errorf("%s given as %T and changed afterwards: %v", clip(n.String()), list[i], err)
				}
			}
			if v, ok := list[i].(*json.Value); ok {
				(*a.GetValues())[i].SetStringValue("changed in the array")
				for _, w := range append(all, v) {
					if err := cmpValue(w, &N{K: "string", S: "changed in the array"}, "value", false); err != nil {
						return fmt.Errorf("%s given as %T and changed in the array: %v", clip(n.String()), v, err)
					}
				}
			}
		}
		// absent
		var noList []any
		var noMap map[string]any
		switch c.Nil {
		case 0, 1:
			x.Class("absent list or map")
			for _, a := range []*json.Array{json.NewArrayOfValues(nil), json.NewArrayOfValues(&noList)} {
				if err := cmpArray(a, &N{K: "array"}, "array of an absent list", true); err != nil {
					return err
				}
				a.AppendStringValue("x")
				if a.Len() != 1 || noList != nil {
					return fmt.Errorf("an array of an absent list cannot be appended to")
				}
			}
			for _, m := range []*json.Map{json.NewMapOfValues(nil), json.NewMapOfValues(&noMap)} {
				if err := cmpMap(m, &N{K: "map"}, "map of an absent map", true); err != nil {
					return err
				}
				m.SetStringValue("k", "x")
				if !m.HasKey("k") || noMap != nil {
					return fmt.Errorf("a map of an absent map cannot be added to")
				}
			}
		}
		return nil
	})

// changeShared changes what an element points to and tells what it is then, nil when it is no pointer.
func changeShared(e any) *N {
	switch p := e.(type) {
	case *json.Value:
		p.SetStringValue("changed value")
		return &N{K: "string", S: "changed value"}
	case *json.Map:
		if p == nil {
			return nil
		}
		for _, k := range p.GetKeys() {
			p.RemoveKey(k)
		}
		p.SetBoolValue("changed", true)
		return &N{K: "map", Keys: []Bin{"changed"}, Kids: []*N{{K: "bool", S: "true"}}}
	case *json.Array:
		for p.Len() > 0 {
			p.RemoveValueAtIndex(0)
		}
		p.AppendStringValue("changed")
		return &N{K: "array", Kids: []*N{{K: "string", S: "changed"}}}
	case *string:
		if p != nil {
			*p += " changed"
			return &N{K: "string", S: Bin(*p)}
		}
	case *bool:
		*p = !*p
		return &N{K: "bool", S: Bin(fmt.Sprint(*p))}
	case *float64:
		*p = *p/2 + 1
		return f64N(*p)
	case *float32:
		*p = *p/2 + 1
		return f32N(*p)
	case *time.Time:
		*p = time.Unix(1700000000, 123456000).UTC()
		return &N{K: "time", S: Bin(timeText(*p))}
	case *[]error:
		*p = append(*p, errors.New("changed"))
		n := &N{K: "errs"}
		for _, k := range *p {
			if k == nil {
				n.Keys = append(n.Keys, noError)
			} else {
				n.Keys = append(n.Keys, Bin(k.Error()))
			}
		}
		return n
	case *[]string:
		*p = append(*p, "changed")
		return &N{K: "strs", Keys: bins(*p)}
	case *error:
		*p = errors.New("changed")
		return &N{K: "err", S: "changed"}
	}
	v := reflect.ValueOf(e)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return nil
	}
	v = v.Elem()
	switch {
	case v.CanInt():
		v.SetInt(v.Int() ^ 1)
	case v.CanUint():
		v.SetUint(v.Uint() ^ 1)
	default:
		return nil
	}
	return &N{K: v.Kind().String(), S: Bin(fmt.Sprint(v.Interface()))}
}

// sameElem tells whether two elements are the same object or equal scalars.
func sameElem(a, b any) bool {
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if a == nil || ta.Comparable() {
		if f, ok := a.(float64); ok && f != f {
			return true
		}
		return a == b
	}
	if l, ok := a.([]error); ok {
		return len(l) == len(b.([]error))
	}
	return true // a container by value cannot be compared, and is the same type
}
