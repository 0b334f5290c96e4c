package main

import (
	"encoding/json"
	"math"
	"strings"

	"pgregory.net/rapid"

	hj "github.com/matehaxor03/holistic_json/json"
)

// upset is something that goes before a case and has nothing to do with it, most of the time a call that fails.
// No property may depend on what happened to other objects before: what such a call leaves behind in the
// library must not show in the case that follows.
type upset struct {
	K    string `json:"k"`
	Text Bin    `json:"text,omitempty"`
	N    int    `json:"n,omitempty"`
}

var upsetKinds = []string{"parse", "parse", "parse", "write", "write", "clone", "read", "bulk", "set", "index", "native"}

func genUpsets(t *rapid.T, often []string) []upset {
	if !chance(t, 1, 6) {
		return nil
	}
	var l []upset
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		u := upset{K: upsetKinds[pick(t, len(upsetKinds))], N: pick(t, 24)}
		if len(often) > 0 && (i == n-1 || bit.Draw(t, "")) {
			u.K = often[pick(t, len(often))]
		}
		switch u.K {
		case "parse":
			switch pick(t, 4) {
			case 0:
				u.Text = genBytes(t).Text
			case 1:
				u.Text = Bin(genFewTokens(t))
			default:
				u.Text = genBad(t).Text
			}
		case "read", "set", "native":
			u.Text = Bin(genText(t))
		}
		l = append(l, u)
	}
	return l
}

// genFewTokens draws a small valid document.
func genFewTokens(t *rapid.T) string {
	_, toks, ws := genDocText(t, 1, 3)
	return join(toks, ws)
}

// do makes the call; what it gives is judged elsewhere.
func (u upset) do() {
	defer func() { recover() }()
	switch u.K {
	case "parse":
		hj.Parse(string(u.Text))
	case "write": // an array or a map in which something cannot be written
		a, m := hj.NewArray(), hj.NewMap()
		for i := 0; i < u.N%6; i++ {
			a.AppendIntValue(i)
			m.SetIntValue(strings.Repeat("k", i), i)
		}
		a.AppendFloat64Value(math.NaN())
		m.SetFloat64Value("n", math.Inf(1))
		if u.N >= 12 {
			a.AppendStringValue("b")
			m.SetStringValue("b", "b")
			o, p := hj.NewMap(), hj.NewArray()
			o.SetArray("a", a)
			o.SetIntValue("b", 1)
			p.AppendStringValue("c")
			p.AppendMap(m)
			p.AppendIntValue(1)
			m, a = o, p
		}
		var b strings.Builder
		a.ToJSONString(&b)
		b.Reset()
		m.ToJSONString(&b)
		b.Reset()
		hj.ConvertInterfaceValueToStringValue(math.NaN())
		a.ToJSONString(nil)
	case "clone": // what cannot be copied
		l := []string{"a", "b"}
		a, m := hj.NewArray(), hj.NewMap()
		for i := 0; i < u.N%4; i++ {
			a.AppendIntValue(i)
			m.SetIntValue(strings.Repeat("k", i), i)
		}
		a.AppendValue(hj.NewValue(&l))
		m.SetValue("l", hj.NewValue(&l))
		for _, f := range []func(){
			func() { hj.NewValue(&l).Clone() },
			func() { hj.NewValue(l).Clone() },
			func() { a.Clone() },
			func() { m.Clone() },
		} {
			func() {
				defer func() { recover() }()
				f()
			}()
		}
	case "read": // as something it is not
		v := hj.NewValue("x" + string(u.Text))
		v.GetInt8()
		v.GetUInt64Value()
		v.GetBool()
		v.GetFloat64()
		v.GetTime()
		v.GetMap()
		v.GetArray()
		m := hj.NewMap()
		m.SetMap("m", hj.NewMap())
		m.GetInt64("m")
		m.GetStringValue("m")
		m.GetStringValue("none")
		m.GetArray("m")
		m.RemoveKey("none")
		m.RemoveKey("m")
	case "bulk":
		a := hj.NewArray()
		for i := 0; i < u.N%7; i++ {
			a.AppendInt64Value(int64(i) * 40)
		}
		a.AppendStringValue("no number")
		a.AppendMap(hj.NewMap())
		a.GetArrayOfInt64()
		a.GetArrayOfInt8Value()
		a.GetArrayOfFloat64()
		a.GetArrayOfStringValue()
		a.GetArrayOfBool()
		a.GetArrayOfUInt16Value()
		hj.NewValue(a).GetErrors()
	case "set": // the wrong kind, then the right one
		m := hj.NewMap()
		m.SetErrors("e", nil)
		m.SetObjectForMap("c", make(chan int))
		hj.NewValue(1).SetObject(struct{}{})
		m.SetString(string(u.Text), nil)
		m.SetNil(string(u.Text))
		m.SetValue("v", nil)
	case "index": // outside an array
		a := hj.NewArray()
		a.AppendIntValue(1)
		a.GetMap(0)
		a.GetMap(u.N + 1)
		a.GetStringValue(1 + u.N)
		a.SetValueAtIndex(u.N+1, hj.NewValue(1))
		a.RemoveValueAtIndex(u.N + 1)
		a.GetStringValue(-1 - u.N)
		a.RemoveValueAtIndex(-1 - u.N)
	case "native":
		l := []interface{}{"a", make(chan int), string(u.Text), nil}
		hj.NewArrayOfValues(&l)
		mv := map[string]interface{}{"a": make(chan int), string(u.Text): 1}
		hj.NewMapOfValues(&mv)
		hj.NewArrayOfValues(nil)
		hj.NewMapOfValues(nil)
		hj.NewValue(struct{}{})
	}
}

// withUpsets is a case with what goes before it.
type withUpsets[C any] struct {
	Before []upset `json:"before,omitempty"`
	Case   C       `json:"case"`
}

// decodeCase reads a case with or without what goes before it.
func decodeCase[C any](d []byte) (any, error) {
	var probe struct {
		Case *json.RawMessage `json:"case"`
	}
	if json.Unmarshal(d, &probe) == nil && probe.Case != nil {
		var w withUpsets[C]
		err := json.Unmarshal(d, &w)
		return w, err
	}
	var c C
	err := json.Unmarshal(d, &c)
	return c, err
}
