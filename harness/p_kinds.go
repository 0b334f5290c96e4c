package main

import (
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	"github.com/matehaxor03/holistic_json/json"
)

// ---- C25: a value is read only as what it is

type kindCase struct {
	Val   *N  `json:"val"`
	Prior *N  `json:"prior"`
	Key   Bin `json:"key"`
	Sib   *N  `json:"sib"`
}

// readable tells whether a value may be read as a kind. What the text of a value spells is judged by C17 and C18,
// how far a number can be read as another type by C07.
func readable(n *N, as string) bool {
	number := isIntKind(strings.ToLower(as)) || strings.HasPrefix(as, "Float")
	switch {
	case n.K == "null" || n.K == "err":
		return true // nothing is claimed here: see C11
	case n.K == "string":
		return as == "String" || as == "Runes" || as == "Bool" || strings.HasPrefix(as, "Time") || number
	case isIntKind(n.K) || isFloatKind(n.K):
		return number
	case n.K == "time":
		return strings.HasPrefix(as, "Time")
	case n.K == "errs" || n.K == "strs":
		return as == "Errors"
	case n.K == "array":
		return as == "Array" || as == "Errors" || strings.HasPrefix(as, "ArrayOf")
	}
	return as == title(n.K)
}

var readKinds = map[string]bool{"String": true, "Runes": true, "Bool": true, "Time": true, "TimeWithDecimalPlaces": true, "Map": true, "Array": true, "Errors": true, "Func": true,
	"Float32": true, "Float64": true, "Int": true, "Int8": true, "Int16": true, "Int32": true, "Int64": true, "UInt": true, "UInt8": true, "UInt16": true, "UInt32": true, "UInt64": true}

// refusals checks every read of a kind that a stored value does not have.
func refusals(p place, n *N, x *Ctx) error {
	tp := reflect.TypeOf(p.obj).Elem()
	for i := 0; i < tp.NumField(); i++ {
		name := tp.Field(i).Name
		ft := tp.Field(i).Type
		if !strings.HasPrefix(name, "Get") || ft.Kind() != reflect.Func || ft.NumOut() != 2 || ft.Out(1) != reflect.TypeOf([]error{}) {
			continue
		}
		as := strings.TrimPrefix(name, "Get")
		if as != "Value" {
			as = strings.TrimSuffix(as, "Value")
		}
		if !readKinds[strings.TrimPrefix(as, "ArrayOf")] || readable(n, as) {
			continue
		}
		var args []any
		if name == "GetTimeWithDecimalPlaces" {
			args = append(args, 3)
		}
		x.steps++
		out := p.get(name, args...)
		e := errsOf(out)
		if len(e) == 0 {
			return fmt.Errorf("%s holding %s: %s gives %v and no error", p.name, clip(n.String()), name, out[0])
		}
		if r := reflect.ValueOf(out[0]); r.Kind() == reflect.Ptr && !r.IsNil() || r.Kind() == reflect.Slice && r.Len() > 0 {
			return fmt.Errorf("%s holding %s: %s gives %v next to errors", p.name, clip(n.String()), name, out[0])
		}
	}
	return nil
}

var _ = register(Prop{ID: "C25", Quick: 8000, Thor: 320000,
	Rule:   "a value of each kind (text, boolean, number, time, list of errors or texts, map, array, function), put in a map, a free value and an array, obtained by parsing or cloning, and changed in place from another kind, read as each kind it does not have in every form on map, value and array; non-trivial: all but null",
	Assume: []string{"whether a text spells the number, boolean or time that it is read as is judged by C17 and C18, and how far numbers are read as other numbers by C07"}},
	func(t *rapid.T) kindCase {
		o := treeOpt{depth: 1, width: 2, times: true, errs: true}
		c := kindCase{Val: genNode(t, o), Prior: genNode(t, o), Key: Bin(genKey(t)), Sib: genScalar(t, o)}
		switch pick(t, 10) {
		case 0:
			c.Val = &N{K: "func", V: pick(t, 8)}
		case 1, 2:
			c.Val = genMap(t, o)
		case 3:
			c.Val = genArray(t, o)
		case 4:
			c.Val = genScalar(t, treeOpt{errs: true, strs: true})
		}
		if chance(t, 1, 8) {
			c.Prior = genScalar(t, treeOpt{errs: true, strs: true})
		}
		return c
	},
	func(c kindCase, x *Ctx) error {
		n, key := c.Val, string(c.Key)
		x.Class(n.K)
		x.Class(c.Prior.K + " before " + n.K)
		x.Nontrivial(n.K != "null")
		var pl []place
		if n.K == "func" {
			f := func(string) []error { return nil }
			m := json.NewMap()
			setMember(m, key, c.Prior)
			if n.V&1 == 0 {
				m.SetFunc(key, &f)
			} else {
				m.SetObjectForMap(key, f)
			}
			pl = []place{{"map", m, key}, {"value in map", m.GetValue(key), ""}, {"value", json.NewValue(f), ""}, {"value", json.NewValue(&f), ""}}
		} else {
			pl = places(n, key)
			m := json.NewMap()
			setMember(m, key, c.Prior)
			w := m.GetValue(key)
			if n.V&1 == 0 {
				pl = append(pl, place{"map after another kind", m, key})
				warm(w, "")
				warm(m, key)
			}
			setMember(m, key, n)
			if n.V&2 == 0 && n.K != "strs" && n.K != "err" {
				v := makeValue(c.Prior)
				a := json.NewArray()
				a.AppendValue(v)
				m2 := json.NewMap()
				m2.SetValue(key, v)
				m2.IsNull(key)
				if n.V&4 == 0 {
					warm(v, "")
					warm(m2, key)
				}
				changeValue(v, n)
				pl = append(pl, place{"value changed from " + c.Prior.K, v, ""}, place{"map whose value changed from " + c.Prior.K, m2, key}, place{"element changed from " + c.Prior.K, (*a.GetValues())[0], ""})
			}
			if n.K != "strs" {
				d := json.NewMap()
				setMember(d, "sib", c.Sib)
				setMember(d, key, n)
				w, e := d.Clone()
				if len(e) > 0 || w == nil {
					return fmt.Errorf("clone: %s", errText(e))
				}
				pl = append(pl, place{"clone", w, key}, place{"value in clone", w.GetValue(key), ""})
			}
		}
		for _, p := range pl {
			if err := refusals(p, n, x); err != nil {
				return err
			}
		}
		if n.K == "func" {
			return nil
		}
		// elements of an array
		a := json.NewArray()
		appendTo(a, c.Sib)
		appendTo(a, n)
		for i, k := range []*N{c.Sib, n} {
			if !readable(k, "String") {
				x.steps++
				if s, e := a.GetStringValue(i); len(e) == 0 {
					return fmt.Errorf("GetStringValue of the element %s gives %q", clip(k.String()), s)
				}
			}
			if !readable(k, "Map") {
				x.steps++
				if m, e := a.GetMap(i); len(e) == 0 || m != nil {
					return fmt.Errorf("GetMap of the element %s gives %v, errors %s", clip(k.String()), m, errText(e))
				}
			}
		}
		// parsed
		d := json.NewMap()
		setMember(d, key, n)
		text, e := toJSON(d)
		if len(e) > 0 {
			return fmt.Errorf("serialising %s: %s", clip(n.String()), errText(e))
		}
		m, err := parse(text)
		if err != nil {
			return err
		}
		for _, p := range []place{{"parsed map", m, key}, {"parsed value", m.GetValue(key), ""}} {
			if err := refusals(p, normal(n), x); err != nil {
				return err
			}
		}
		return nil
	})
