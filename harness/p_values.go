package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/matehaxor03/holistic_json/json"
)

var kindPredicates = []string{"String", "Bool", "Map", "Array", "Float", "Float32", "Float64", "Integer", "Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64", "EmptyString", "BoolTrue", "BoolFalse", "Number"}

// typeNames are the names of the types whose name does not depend on how they are stored, but for a leading star.
var typeNames = map[string]string{"string": "string", "bool": "bool", "map": "json.Map", "array": "json.Array", "time": "time.Time", "func": "func(string) []error",
	"int": "int", "int8": "int8", "int16": "int16", "int32": "int32", "int64": "int64", "uint": "uint", "uint8": "uint8", "uint16": "uint16", "uint32": "uint32", "uint64": "uint64",
	"float32": "float32", "float64": "float64"}

// isA is what a type predicate should say about a node.
func isA(n *N, p string) bool {
	switch p {
	case "Float":
		return isFloatKind(n.K)
	case "Integer":
		return isIntKind(n.K)
	case "Int":
		return isSigned(n.K)
	case "UInt":
		return isUnsigned(n.K)
	case "Number":
		return isIntKind(n.K) || isFloatKind(n.K)
	case "EmptyString":
		return n.K == "string" && n.S == ""
	case "BoolTrue":
		return n.K == "bool" && n.S == "true"
	case "BoolFalse":
		return n.K == "bool" && n.S == "false"
	}
	return n.K != "null" && p == title(n.K)
}

// predicates compares every type predicate of a map (for a name) or of a value with what it should say.
func predicates(obj any, key string, n *N, what string) error {
	m, isMap := obj.(*json.Map)
	for _, p := range kindPredicates {
		var got bool
		if isMap {
			if !hasOp(m, "Is"+p) {
				continue
			}
			got = call(m, "Is"+p, key)[0].(bool)
		} else {
			got = call(obj, "Is"+p)[0].(bool)
		}
		if got != isA(n, p) {
			return fmt.Errorf("%s holding %s: Is%s is %v", what, clip(n.String()), p, got)
		}
	}
	null := false
	if isMap {
		null = m.IsNull(key)
	} else {
		null = obj.(*json.Value).IsNil()
	}
	if null != (n.K == "null") {
		return fmt.Errorf("%s holding %s: the null predicate is %v", what, clip(n.String()), null)
	}
	return nil
}

// where a value is held: places are the ways to reach the same stored node.
type place struct {
	name string
	obj  any // *json.Map or *json.Value
	key  string
}

func (p place) get(name string, args ...any) []any {
	if m, ok := p.obj.(*json.Map); ok {
		return call(m, name, append([]any{p.key}, args...)...)
	}
	return call(p.obj, name, args...)
}

func (p place) has(name string) bool { return hasOp(p.obj, name) }

// places stores a node in a map, a free value and an array through the operation n.V selects.
func places(n *N, key string) []place {
	m := json.NewMap()
	m.SetStringValue("other", "x")
	setMember(m, key, n)
	a := json.NewArray()
	a.AppendNil()
	appendTo(a, n)
	pl := []place{{"map", m, key}, {"value in map", m.GetValue(key), ""}, {"value", makeValue(n), ""}, {"array element", (*a.GetValues())[1], ""}}
	// what held something else, and was read, before
	prior := priors[(n.V+3*len(key)+len(n.S))%len(priors)]
	if (n.V+len(key))&1 == 0 {
		v := makeValue(prior)
		warm(v, "")
		if n.K == "err" || n.K == "strs" {
			v.SetObject(native(n))
		} else {
			changeValue(v, n)
		}
		return append(pl, place{"value that held " + prior.String(), v, ""})
	}
	m = json.NewMap()
	setMember(m, key, prior)
	warm(m, key)
	warm(m.GetValue(key), "")
	setMember(m, key, n)
	return append(pl, place{"map that held " + prior.String(), m, key})
}

// priors are what values hold before they are changed.
var priors = []*N{{K: "string", S: "7"}, {K: "int", S: "7"}, {K: "null"}, {K: "map", Keys: []Bin{"k"}, Kids: []*N{{K: "bool", S: "true"}}}, {K: "uint64", S: "18446744073709551615", V: 1},
	{K: "array", Kids: []*N{{K: "string", S: "x"}}}, {K: "bool", S: "false", V: 1}, {K: "float64", S: "2.5"}, {K: "time", S: "981173106,7000000,3600"}, {K: "int8", S: "-1", V: 1}, {K: "string", S: "", V: 1}, {K: "float32", S: "0.5", V: 1}, {K: "uint8", S: "0"}}

// warm reads an object in every way there is, so that anything it remembers is there.
func warm(obj any, key string) {
	t := reflect.TypeOf(obj).Elem()
	for i := 0; i < t.NumField(); i++ {
		name, ft := t.Field(i).Name, t.Field(i).Type
		if ft.Kind() != reflect.Func || !isRead(name) || name == "GetFunc" {
			continue
		}
		switch {
		case ft.NumIn() == 0:
			call(obj, name)
		case ft.NumIn() == 1 && ft.In(0).Kind() == reflect.String:
			call(obj, name, key)
		}
	}
}

func errsOf(out []any) []error {
	e, _ := out[len(out)-1].([]error)
	return e
}

// deref follows a pointer result; ok is false for nil.
func deref(v any) (any, bool) {
	r := reflect.ValueOf(v)
	if !r.IsValid() {
		return nil, false
	}
	if r.Kind() == reflect.Ptr {
		if r.IsNil() {
			return nil, false
		}
		return r.Elem().Interface(), true
	}
	return v, true
}

func bigOf(v any) *big.Int {
	r := reflect.ValueOf(v)
	if r.CanInt() {
		return big.NewInt(r.Int())
	}
	return new(big.Int).SetUint64(r.Uint())
}

// ---- C07: reading a number as another type is exact or refused

type numCase struct {
	Num *N  `json:"num"`
	Key Bin `json:"key"`
}

func genNumNode(t *rapid.T) *N {
	var n *N
	switch pick(t, 8) {
	case 0:
		n = f64N(genFloat64(t))
	case 1:
		n = f32N(genFloat32(t))
	default:
		k := oneOf(t, append(append([]string{}, intKinds...), uintKinds...)...)
		v := genIntOf(t, k)
		if bit.Draw(t, "") { // a limit of any width, or next to it
			w := oneOf(t, append(append([]string{}, intKinds...), uintKinds...)...)
			l := new(big.Int).Set(kindMax(w))
			if bit.Draw(t, "") {
				l.Set(kindMin(w))
			}
			if l.Add(l, big.NewInt(int64(between(t, -1, 1)))); fits(l, k) {
				v = l
			}
		}
		n = &N{K: k, S: Bin(v.String())}
	}
	n.V = pick(t, 8)
	return n
}

var _ = register(Prop{ID: "C07", Quick: 16000, Thor: 640000, After: []string{"read"},
	Rule: "a number of each stored kind (limits of all widths and neighbours, random bit lengths, floats) stored by value or pointer through a random operation in a map, a value and an array, read as all 10 integer types and as 64-bit and 32-bit float in both forms, singly and in bulk; non-trivial: some integer type can hold it and another cannot, or it is a float"},
	func(t *rapid.T) numCase { return numCase{genNumNode(t), Bin(genKey(t))} },
	func(c numCase, x *Ctx) error {
		n := c.Num
		x.Class("stored " + n.K)
		fit, unfit := 0, 0
		check := func(what string, got any, e []error, target string) error {
			x.steps++
			v, ok := deref(got)
			if strings.HasPrefix(target, "float") {
				want := n.f64()
				if n.K == "float32" {
					want = wide(n.f32())
				} else if isIntKind(n.K) {
					want, _ = new(big.Float).SetInt(n.big()).Float64()
				}
				if target == "float32" {
					if math.IsInf(float64(float32(want)), 0) {
						x.Class("beyond the range of a 32 bit float")
						if len(e) == 0 {
							return fmt.Errorf("%s of %s gives %v and no error", what, n, v)
						}
						return nil
					}
					if len(e) > 0 || !ok {
						return fmt.Errorf("%s of %s gives %v, errors %s, should be %v", what, n, v, errText(e), float32(want))
					}
					if g := v.(float32); g != float32(want) && g != sixDecimals(want) {
						return fmt.Errorf("%s of %s gives %v, should be %v", what, n, g, float32(want))
					}
					return nil
				}
				if len(e) > 0 || !ok || math.Float64bits(v.(float64)) != math.Float64bits(want) {
					return fmt.Errorf("%s of %s gives %v, errors %s, should be %v", what, n, v, errText(e), want)
				}
				return nil
			}
			if isFloatKind(n.K) { // refused, or exact
				if len(e) > 0 {
					return nil
				}
				if !ok {
					return fmt.Errorf("%s of %s gives nothing", what, n)
				}
				if got, _ := new(big.Float).SetInt(bigOf(v)).Float64(); got != n.f64() {
					return fmt.Errorf("%s of %s gives %v", what, n, v)
				}
				return nil
			}
			if !fits(n.big(), target) {
				unfit++
				if len(e) == 0 {
					return fmt.Errorf("%s of %s gives %v and no error", what, n, v)
				}
				return nil
			}
			fit++
			if len(e) > 0 || !ok || bigOf(v).Cmp(n.big()) != 0 {
				return fmt.Errorf("%s of %s gives %v, errors %s", what, n, v, errText(e))
			}
			return nil
		}
		pl := places(n, string(c.Key))
		am := json.NewMap()
		arr := json.NewArray()
		appendTo(arr, n)
		am.SetArray(string(c.Key), arr)
		for _, target := range append(append([]string{"float64", "float32"}, intKinds...), uintKinds...) {
			for _, p := range pl {
				if p.name == "value in map" && n.V&1 == 1 {
					continue
				}
				for _, form := range []string{"Get" + title(target), "Get" + title(target) + "Value"} {
					out := p.get(form)
					if err := check(form+" on "+p.name, out[0], errsOf(out), target); err != nil {
						return err
					}
				}
			}
			for _, form := range []string{"GetArrayOf" + title(target), "GetArrayOf" + title(target) + "Value"} {
				for _, o := range []place{{"array", arr, ""}, {"map", am, string(c.Key)}} {
					if !o.has(form) {
						continue
					}
					out := o.get(form)
					e := errsOf(out)
					var el any
					if l := listOf(out[0]); len(e) == 0 {
						if len(l) != 1 {
							return fmt.Errorf("%s on %s of [%s] gives %d elements", form, o.name, n, len(l))
						}
						el = l[0]
					}
					if err := check(form+" on "+o.name, el, e, target); err != nil {
						return err
					}
				}
			}
		}
		x.Nontrivial(isFloatKind(n.K) || fit > 0 && unfit > 0)
		return nil
	})

// listOf is the elements of a list result, by value or pointer.
func listOf(v any) []any {
	d, ok := deref(v)
	if !ok {
		return nil
	}
	r := reflect.ValueOf(d)
	var l []any
	for i := 0; i < r.Len(); i++ {
		l = append(l, r.Index(i).Interface())
	}
	return l
}

// ---- C12: type predicates

type valueCase struct {
	Val  *N  `json:"val"`
	Key  Bin `json:"key"`
	Text Bin `json:"text"`
}

var _ = register(Prop{ID: "C12", Quick: 8000, Thor: 320000, After: []string{"read", "bulk"},
	Rule: "a value of a random type (texts that look like nulls, numbers, booleans or containers, numbers of every width, booleans, times, lists of errors, functions, empty and filled containers, null), stored by value or pointer through a random operation in a map, a value and an array; all 22 predicates of each place; non-trivial: not null"},
	func(t *rapid.T) valueCase {
		c := valueCase{Key: Bin(genKey(t))}
		switch pick(t, 8) {
		case 0:
			c.Val = &N{K: "func", V: pick(t, 8)}
		case 1:
			c.Val = genMap(t, treeOpt{depth: 0, width: 2, times: true, errs: true})
		case 2:
			c.Val = genArray(t, treeOpt{depth: 0, width: 2, times: true, errs: true})
		case 3, 4:
			c.Val = &N{K: "string", S: Bin(genText(t)), V: pick(t, 8)}
		default:
			c.Val = genScalar(t, treeOpt{times: true, errs: true, strs: true})
		}
		switch pick(t, 3) {
		case 0:
			c.Text = c.Val.S
		case 1:
			c.Text = c.Val.S + Bin(genWord(t, 0, 1))
		default:
			c.Text = Bin(genText(t))
		}
		return c
	},
	func(c valueCase, x *Ctx) error {
		n := c.Val
		x.Class(n.K)
		x.Nontrivial(n.K != "null")
		var pl []place
		if n.K == "func" {
			f := func(string) []error { return nil }
			m := json.NewMap()
			if n.V&1 == 0 {
				m.SetFunc(string(c.Key), &f)
			} else {
				m.SetObjectForMap(string(c.Key), f)
			}
			pl = []place{{"map", m, string(c.Key)}, {"value in map", m.GetValue(string(c.Key)), ""}, {"value", json.NewValue(f), ""}, {"value", json.NewValue(&f), ""}}
		} else {
			pl = places(n, string(c.Key))
		}
		for _, p := range pl {
			x.steps += len(kindPredicates)
			if err := predicates(p.obj, p.key, n, p.name); err != nil {
				return err
			}
			v, ok := p.obj.(*json.Value)
			if m, isMap := p.obj.(*json.Map); isMap {
				v = m.GetValue(p.key)
				ty, want := m.GetType(p.key), "nil"
				if n.K != "null" || v != nil && !v.IsNil() {
					want = v.GetType()
				}
				if ty != want {
					return fmt.Errorf("%s holding %s: the map gives the type %s, the value %s", p.name, clip(n.String()), ty, want)
				}
			}
			if ty, want := v.GetType(), typeNames[n.K]; n.K != "null" && want != "" && strings.TrimPrefix(ty, "*") != want {
				return fmt.Errorf("%s holding %s: the type is %s", p.name, clip(n.String()), ty)
			}
			if !ok {
				continue
			}
			for _, s := range []string{string(c.Text), string(n.S), ""} {
				want := n.K == "string" && s == string(n.S)
				if got := v.IsValueEqualToStringValue(s); got != want {
					return fmt.Errorf("%s holding %s: IsValueEqualToStringValue(%q) is %v", p.name, clip(n.String()), s, got)
				}
				if got := v.IsValueEqualToString(&s); got != want {
					return fmt.Errorf("%s holding %s: IsValueEqualToString(%q) is %v", p.name, clip(n.String()), s, got)
				}
			}
			if got := v.IsValueEqualToString(nil); got != (n.K == "null") {
				return fmt.Errorf("%s holding %s: IsValueEqualToString(nil) is %v", p.name, clip(n.String()), got)
			}
		}
		return nil
	})

// ---- C11: missing and null

type nullCase struct {
	Key   Bin `json:"key"`
	Way   int `json:"way"`
	Which int `json:"which"`
	Prior *N  `json:"prior"`
}

var nilTypes = []string{"String", "Bool", "Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "Map", "Array", "Time", "Func"}
var nullWays = []string{"missing", "SetNil", "NewValue(nil)", "nil pointer", "nil pointer object", "parsed", "nil object", "nil value", "set and then SetNil", "SetNil on the value", "SetObject(nil) on the value", "removed", "cloned null", "parsed in array"}

var _ = register(Prop{ID: "C11", Quick: 12000, Thor: 192000, After: []string{"read", "bulk"},
	Rule: "a name (or element) that is missing or null in one of 14 ways, with every nil pointer type, after a random earlier value; every Get and Is operation of the map, of the value and every bulk read of an array holding it; non-trivial: always (each case makes about 150 reads)"},
	func(t *rapid.T) nullCase {
		return nullCase{Bin(genKey(t)), pick(t, len(nullWays)), pick(t, len(nilTypes)), genScalar(t, treeOpt{})}
	},
	runNull)

func nilPtr(ty string) any {
	f, _ := op(json.NewMap(), "Set"+ty)
	return reflect.Zero(f.Type().In(1)).Interface()
}

func runNull(c nullCase, x *Ctx) error {
	m := json.NewMap()
	key := string(c.Key)
	way := nullWays[c.Way]
	ty := nilTypes[c.Which]
	x.Nontrivial(true)
	x.Class(way)
	m.SetStringValue("before", "x")
	if key != "before" && way != "missing" {
		setMember(m, key, c.Prior)
	}
	present := true
	var free *json.Value
	switch way {
	case "missing":
		key += "!"
		if key == "before" {
			key += "!"
		}
		present = false
	case "SetNil":
		m.SetNil(key)
	case "NewValue(nil)":
		m.SetValue(key, json.NewValue(nil))
	case "nil pointer":
		call(m, "Set"+ty, key, nilPtr(ty))
		x.Class("nil " + ty)
		free = json.NewValue("x")
		if ty != "Func" {
			call(free, "Set"+ty, nilPtr(ty))
		} else {
			free.SetObject(nilPtr(ty))
		}
	case "nil pointer object":
		m.SetObjectForMap(key, nilPtr(ty))
		free = json.NewValue(nilPtr(ty))
	case "parsed":
		var err error
		b, _ := toJSON(key)
		if m, err = parse("{\"before\":1," + b + ": null }"); err != nil {
			return err
		}
		if key == "before" {
			if m, err = parse("{\"before\":null}"); err != nil {
				return err
			}
		}
	case "nil object":
		m.SetObjectForMap(key, nil)
	case "nil value":
		m.SetValue(key, nil)
	case "set and then SetNil":
		m.SetIntValue(key, 1)
		m.SetNil(key)
	case "SetNil on the value":
		m.SetIntValue(key, 1)
		m.GetValue(key).SetNil()
	case "SetObject(nil) on the value":
		m.SetIntValue(key, 1)
		m.GetValue(key).SetObject(nil)
	case "removed":
		m.SetIntValue(key, 1)
		if _, err := m.RemoveKey(key); err != nil {
			return err
		}
		present = false
	case "cloned null":
		m.SetNil(key)
		w, e := m.Clone()
		if len(e) > 0 || w == nil {
			return fmt.Errorf("clone of a null: %s", errText(e))
		}
		m = w
	case "parsed in array":
		p, err := parse("{\"a\":[1, null,2]}")
		if err != nil {
			return err
		}
		a, e := p.GetArray("a")
		if e != nil || a == nil || a.Len() != 3 {
			return fmt.Errorf("array with null not found")
		}
		free = (*a.GetValues())[1]
		m.SetValue(key, free)
	}
	what := fmt.Sprintf("%s (%s, %s)", way, strconv.QuoteToASCII(key), ty)
	if m.HasKey(key) != present {
		return fmt.Errorf("%s: HasKey is %v", what, !present)
	}
	listed := false
	for _, k := range m.GetKeys() {
		listed = listed || k == key
	}
	if listed != present {
		return fmt.Errorf("%s: listed as present: %v", what, listed)
	}
	text, e := toJSON(m)
	if len(e) > 0 {
		return fmt.Errorf("%s: not serialised: %s", what, errText(e))
	}
	if r, err := readJSON(text); err != nil {
		return fmt.Errorf("%s: serialised to %s: %v", what, quote(text), err)
	} else if i := r.find(key); present != (i >= 0) || present && r.Kids[i].K != "null" {
		return fmt.Errorf("%s: serialised to %s", what, quote(text))
	}
	if !present && m.GetValue(key) != nil {
		return fmt.Errorf("%s: there is a value", what)
	}
	if o := m.GetObjectForMap(key); o != nil {
		return fmt.Errorf("%s: GetObjectForMap gives %T", what, o)
	}
	if ty := m.GetType(key); ty != "nil" {
		return fmt.Errorf("%s: GetType gives %s", what, ty)
	}
	if err := readsNull(place{what, m, key}, x); err != nil {
		return err
	}
	vals := []*json.Value{free}
	if present {
		vals = append(vals, m.GetValue(key))
	}
	for _, v := range vals {
		if v == nil {
			continue
		}
		if err := readsNull(place{what + ": its value", v, ""}, x); err != nil {
			return err
		}
	}
	if present { // in an array next to something of the wanted type
		for _, k := range []string{"String", "Bool", "Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64"} {
			if (c.Which+len(k))%3 != 0 {
				continue
			}
			a := json.NewArray()
			switch k {
			case "String":
				a.AppendStringValue("s")
			case "Bool":
				a.AppendBoolValue(true)
			default:
				a.AppendInt8Value(1)
			}
			a.AppendValue(m.GetValue(key))
			out := call(a, "GetArrayOf"+k)
			l := listOf(out[0])
			if e := errsOf(out); len(e) > 0 || len(l) != 2 {
				return fmt.Errorf("%s in an array: GetArrayOf%s gives %d elements, errors %s", what, k, len(l), errText(e))
			}
			if _, ok := deref(l[1]); ok {
				return fmt.Errorf("%s in an array: GetArrayOf%s gives an element for it", what, k)
			}
			if out = call(a, "GetArrayOf"+k+"Value"); len(errsOf(out)) == 0 {
				return fmt.Errorf("%s in an array: GetArrayOf%sValue gives %v and no error", what, k, out[0])
			}
			x.steps += 2
		}
	}
	return nil
}

// readsNull checks every predicate and read for a missing or null member.
func readsNull(p place, x *Ctx) error {
	if err := predicates(p.obj, p.key, &N{K: "null"}, p.name); err != nil {
		return err
	}
	tp := reflect.TypeOf(p.obj).Elem()
	for i := 0; i < tp.NumField(); i++ {
		name := tp.Field(i).Name
		ft := tp.Field(i).Type
		if !strings.HasPrefix(name, "Get") || ft.Kind() != reflect.Func || ft.NumOut() != 2 || ft.Out(1) != reflect.TypeOf([]error{}) {
			continue
		}
		var args []any
		if name == "GetTimeWithDecimalPlaces" {
			args = append(args, 3)
		}
		x.steps++
		out := p.get(name, args...)
		e := errsOf(out)
		switch k := ft.Out(0).Kind(); {
		case k == reflect.Ptr || name == "GetErrors":
			if len(e) > 0 || !reflect.ValueOf(out[0]).IsNil() {
				return fmt.Errorf("%s: %s gives %v, errors %s", p.name, name, out[0], errText(e))
			}
		case strings.HasPrefix(name, "GetArrayOf"): // lists by value
		default:
			if len(e) == 0 {
				return fmt.Errorf("%s: %s gives %v and no error", p.name, name, out[0])
			}
		}
	}
	return nil
}

// ---- C13: bulk reads

type bulkCase struct {
	Elems []*N `json:"elems"`
	Key   Bin  `json:"key"`
}

var _ = register(Prop{ID: "C13", Quick: 5000, Thor: 200000, After: []string{"bulk"},
	Rule: "an array of zero to six generated elements, mostly readable as one type (numbers of mixed widths, number and boolean texts, nulls) with at most one spoiler, read in bulk as all 14 types in both forms on the array and on a map, against the reads of its elements; non-trivial: at least two elements"},
	func(t *rapid.T) bulkCase {
		c := bulkCase{Key: Bin(genKey(t))}
		n := between(t, 0, 6)
		if chance(t, 1, 15) {
			n = between(t, 7, 70)
		}
		theme := pick(t, 6)
		if chance(t, 1, 60) {
			n, theme = oneOf(t, 130, 260, 300, 520, 1030), oneOf(t, 1, 2, 2, 4, 7, 7, 7)
		}
		for i := 0; i < n; i++ {
			var e *N
			switch theme {
			case 0:
				e = &N{K: "string", S: Bin(genText(t))}
			case 1:
				e = &N{K: "bool", S: Bin(oneOf(t, "true", "false"))}
			case 2:
				k := oneOf(t, append(append([]string{}, intKinds...), uintKinds...)...)
				e = &N{K: k, S: Bin(strconv.Itoa(between(t, 0, 127)))}
			case 3:
				e = genNumNode(t)
			case 7: // readable as every number
				e = &N{K: "string", S: Bin(oneOf(t, "1", "0", "12", "127"))}
			case 4:
				e = &N{K: "string", S: Bin(oneOf(t, "1", "0", "true", "false", "12", "-3", "1.5", "300"))}
			default:
				e = genScalar(t, treeOpt{times: true, errs: true})
			}
			e.V = pick(t, 8)
			c.Elems = append(c.Elems, e)
		}
		if n > 0 && chance(t, 1, 2) {
			i := pick(t, n)
			switch pick(t, 3) {
			case 0:
				c.Elems[i] = &N{K: "null", V: pick(t, 8)}
			case 1:
				c.Elems[i] = genNode(t, treeOpt{depth: 1, width: 1, times: true})
			default:
				c.Elems[i] = genNumNode(t)
			}
		}
		return c
	},
	func(c bulkCase, x *Ctx) error {
		a := json.NewArray()
		for _, e := range c.Elems {
			appendTo(a, e)
		}
		m := json.NewMap()
		m.SetArray(string(c.Key), a)
		x.Nontrivial(len(c.Elems) >= 2)
		x.Upset()
		what := (&N{K: "array", Kids: c.Elems}).String()
		for _, k := range []string{"String", "Bool", "Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64"} {
			for _, form := range []string{"", "Value"} {
				var want []any
				fail := false
				for _, v := range *a.GetValues() {
					out := call(v, "Get"+k+form)
					if len(errsOf(out)) > 0 {
						fail = true
					}
					want = append(want, out[0])
				}
				for _, o := range []place{{"array", a, ""}, {"map", m, string(c.Key)}} {
					name := "GetArrayOf" + k + form
					if !o.has(name) {
						continue
					}
					x.steps++
					out := o.get(name)
					e := errsOf(out)
					if (len(e) > 0) != fail {
						return fmt.Errorf("%s of %s on %s reports %d errors, its elements report some: %v", name, clip(what), o.name, len(e), fail)
					}
					if fail {
						x.Class("refused as " + k)
						if !reflect.ValueOf(out[0]).IsNil() {
							return fmt.Errorf("%s of %s on %s reports errors and gives a list", name, clip(what), o.name)
						}
						continue
					}
					x.ClassIf(len(want) > 0, "read as "+k)
					got := listOf(out[0])
					if form == "" && reflect.ValueOf(out[0]).IsNil() {
						return fmt.Errorf("%s of %s on %s gives neither a list nor errors", name, clip(what), o.name)
					}
					if len(got) != len(want) {
						return fmt.Errorf("%s of %s on %s gives %d elements", name, clip(what), o.name, len(got))
					}
					for i := range got {
						g, gok := deref(got[i])
						w, wok := deref(want[i])
						if gok != wok || gok && !sameScalar(g, w) {
							return fmt.Errorf("%s of %s on %s: element %d is %v (%v), reads as %v (%v)", name, clip(what), o.name, i, g, gok, w, wok)
						}
					}
				}
			}
		}
		return nil
	})

func sameScalar(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	}
	return reflect.DeepEqual(a, b)
}

// ---- C16: what is set is what is read

type setCase struct {
	Val   *N  `json:"val"`
	Other *N  `json:"other"`
	Key   Bin `json:"key"`
	Prior *N  `json:"prior"`
}

func genOfKind(t *rapid.T, k string) *N {
	n := &N{K: k, V: pick(t, 8)}
	switch {
	case k == "string":
		n.S = Bin(genText(t))
		if chance(t, 1, 60) {
			s := oneOf(t, "a", "é", "ab😀", "\"", " ")
			n.S = Bin(strings.Repeat(s, oneOf(t, 5000, 33000, 66000, 132000)/len(s)+pick(t, 4)))
		}
	case k == "bool":
		n.S = Bin(oneOf(t, "true", "false"))
	case k == "float32":
		n.S = f32N(genFloat32(t)).S
	case k == "float64":
		n.S = f64N(genFloat64(t)).S
	case k == "time":
		n.S = Bin(timeText(genTime(t)))
	case k == "errs":
		for i, w := 0, pick(t, 4); i < w; i++ {
			n.Keys = append(n.Keys, Bin(genText(t)))
		}
	case k == "map":
		return genMap(t, treeOpt{depth: 1, width: 3, times: true, errs: true})
	case k == "array":
		return genArray(t, treeOpt{depth: 1, width: 3, times: true, errs: true})
	case isIntKind(k):
		n.S = Bin(genIntOf(t, k).String())
	}
	return n
}

const finding32 = "GetFloat32 and GetFloat32Value round to six decimals"

// sixDecimals is how GetFloat32 is known to read a number (a recorded finding).
func sixDecimals(f float64) float32 {
	v, _ := strconv.ParseFloat(fmt.Sprintf("%f", f), 32)
	return float32(v)
}

// same32 judges a 32 bit float that was read; known tells that it differs in the recorded way.
func same32(got, want float32) (ok, known bool) {
	if math.Float32bits(got) == math.Float32bits(want) {
		return true, false
	}
	return false, math.Float32bits(got) == math.Float32bits(sixDecimals(wide(want))) || math.Float32bits(got) == math.Float32bits(sixDecimals(float64(want)))
}

var _ = register(Prop{ID: "C16", Quick: 30000, Thor: 560000, After: []string{"set", "read"},
	Rule: "a value of each of 18 types stored through the typed set or append operation by value and by pointer on a fresh or occupied place of a map, a value and an array, read by the read of the same type; then the variable behind a stored pointer is changed, and then a variable stored or read by value; non-trivial: text, list of errors, container, time, function, or a number other than 0 and 1",
	Finding: func() []string {
		m := json.NewMap()
		m.SetFloat32Value("x", 1e-7)
		got, e := m.GetFloat32Value("x")
		if len(e) == 0 && got != 1e-7 && got == sixDecimals(1e-7) && listed("C16", finding32) {
			return []string{finding32 + ": SetFloat32Value(1e-7) reads back as " + fmt.Sprint(got)}
		}
		return nil
	}},
	func(t *rapid.T) setCase {
		k := oneOf(t, append(append(append([]string{}, intKinds...), uintKinds...), "string", "string", "string", "bool", "float32", "float32", "float64", "float64", "time", "errs", "map", "array", "func")...)
		c := setCase{Key: Bin(genKey(t)), Val: genOfKind(t, k), Other: genOfKind(t, k), Prior: genScalar(t, treeOpt{times: true})}
		return c
	},
	runSet)

func runSet(c setCase, x *Ctx) error {
	n, key := c.Val, string(c.Key)
	x.Class(n.K)
	x.Nontrivial(n.S != "0" && n.S != "1" && n.K != "bool")
	same := func(what string, got any, e []error, w *N) error {
		x.steps++
		v, ok := deref(got)
		if len(e) > 0 || !ok {
			return fmt.Errorf("%s of %s gives %v, errors %s", what, clip(w.String()), got, errText(e))
		}
		want := native(w)
		switch y := want.(type) {
		case time.Time:
			if g := v.(time.Time); !g.Equal(y) || g.Format(time.RFC3339Nano) != y.Format(time.RFC3339Nano) {
				return fmt.Errorf("%s gives %v, not %v", what, g, y)
			}
			return nil
		case float32:
			ok, known := same32(v.(float32), y)
			if !ok && known && listed("C16", finding32) {
				x.Known(finding32)
				ok = true
			}
			if !ok {
				return fmt.Errorf("%s gives %v, not %v", what, v, y)
			}
			return nil
		case []error:
			g := v.([]error)
			if len(g) != len(y) {
				return fmt.Errorf("%s gives %d errors, not %d", what, len(g), len(y))
			}
			for i := range g {
				if g[i] == nil || g[i].Error() != y[i].Error() {
					return fmt.Errorf("%s: error %d is %v, not %v", what, i, g[i], y[i])
				}
			}
			return nil
		}
		if !sameScalar(v, want) {
			return fmt.Errorf("%s gives %v, not %v", what, v, want)
		}
		return nil
	}
	newMap := func() *json.Map {
		m := json.NewMap()
		if c.Prior.V&1 == 0 {
			setMember(m, key, c.Prior)
		}
		return m
	}
	newValue := func() *json.Value {
		if c.Prior.V&2 == 0 {
			return makeValue(c.Prior)
		}
		return json.NewValue(nil)
	}
	switch n.K {
	case "func":
		calls := 0
		f := func(s string) []error { calls++; return []error{errors.New("got " + s)} }
		var stored []place
		m := newMap()
		m.SetFunc(key, &f)
		stored = append(stored, place{"Map.GetFunc", m, key}, place{"Value.GetFunc", m.GetValue(key), ""}, place{"Value.GetFunc", json.NewValue(f), ""})
		m2 := newMap()
		m2.SetObjectForMap(key, f)
		stored = append(stored, place{"Map.GetFunc", m2, key})
		for i, p := range stored {
			out := p.get("GetFunc")
			g, _ := out[0].(*func(string) []error)
			if e := errsOf(out); len(e) > 0 || g == nil || *g == nil {
				return fmt.Errorf("%s gives no function, errors %s", p.name, errText(e))
			}
			if r := (*g)(key); len(r) != 1 || r[0].Error() != "got "+key || calls != i+1 {
				return fmt.Errorf("%s gives another function", p.name)
			}
		}
		return nil
	case "map", "array":
		for v := 0; v < 8; v++ {
			n.V = v
			m := newMap()
			setMember(m, key, n)
			a := json.NewArray()
			appendTo(a, n)
			for _, w := range []*json.Value{m.GetValue(key), (*a.GetValues())[0], makeValue(n)} {
				if err := cmpValue(w, n, "stored "+n.K, true); err != nil {
					return err
				}
			}
			x.steps += 3
			if n.K == "map" {
				p, e := m.GetMap(key)
				if len(e) > 0 || p == nil {
					return fmt.Errorf("GetMap: %s", errText(e))
				}
				q, e := m.GetMapValue(key)
				if len(e) > 0 {
					return fmt.Errorf("GetMapValue: %s", errText(e))
				}
				r, e := a.GetMap(0)
				if len(e) > 0 || r == nil {
					return fmt.Errorf("Array.GetMap: %s", errText(e))
				}
				for _, o := range []*json.Map{p, &q, r} {
					if err := cmpMap(o, n, "stored map", true); err != nil {
						return err
					}
				}
			} else {
				p, e := m.GetArray(key)
				if len(e) > 0 || p == nil {
					return fmt.Errorf("GetArray: %s", errText(e))
				}
				q, e := m.GetArrayValue(key)
				if len(e) > 0 {
					return fmt.Errorf("GetArrayValue: %s", errText(e))
				}
				r, e := p.GetArrayValue()
				if len(e) > 0 {
					return fmt.Errorf("Array.GetArrayValue: %s", errText(e))
				}
				for _, o := range []*json.Array{p, &q, &r} {
					if err := cmpArray(o, n, "stored array", true); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}
	// scalars
	T := title(n.K)
	hasList := n.K != "time" && n.K != "errs"
	read := func(what string, o any, w *N) error {
		p := place{what, o, ""}
		if _, ok := o.(*json.Map); ok {
			p.key = key
		}
		for _, form := range []string{"Get" + T, "Get" + T + "Value"} {
			if !p.has(form) {
				continue
			}
			out := p.get(form)
			if err := same(form+" on "+what, out[0], errsOf(out), w); err != nil {
				return err
			}
		}
		if n.K == "string" {
			out := p.get("GetRunes")
			e := errsOf(out)
			l := listOf(out[0])
			want := []rune(string(w.S))
			if len(e) > 0 || len(l) != len(want) {
				return fmt.Errorf("GetRunes on %s of %s gives %d runes, errors %s", what, w, len(l), errText(e))
			}
			for i := range l {
				r, ok := deref(l[i])
				if !ok || r.(rune) != want[i] {
					return fmt.Errorf("GetRunes on %s of %s: rune %d is %v", what, w, i, r)
				}
			}
		}
		return nil
	}
	readList := func(what string, a *json.Array, w *N) error {
		if !hasList {
			return read(what, (*a.GetValues())[0], w)
		}
		for _, form := range []string{"GetArrayOf" + T, "GetArrayOf" + T + "Value"} {
			out := call(a, form)
			l := listOf(out[0])
			if e := errsOf(out); len(e) > 0 || len(l) != 1 {
				return fmt.Errorf("%s on %s of %s gives %d elements, errors %s", form, what, w, len(l), errText(e))
			}
			if err := same(form+" on "+what, l[0], nil, w); err != nil {
				return err
			}
		}
		if n.K == "string" {
			s, e := a.GetStringValue(0)
			if err := same("GetStringValue on "+what, s, e, w); err != nil {
				return err
			}
		}
		return read(what+" element", (*a.GetValues())[0], w)
	}
	setPtr := func(p any, w *N) { reflect.ValueOf(p).Elem().Set(reflect.ValueOf(native(w))) }

	// by value: a copy is stored
	arg := ptrTo(native(n))
	byValue := func() any { return reflect.ValueOf(arg).Elem().Interface() }
	m, v, a := newMap(), newValue(), json.NewArray()
	switch {
	case n.K == "errs":
		m.SetErrors(key, byValue().([]error))
		v.SetErrorsValue(byValue().([]error))
		a.AppendValue(json.NewValue(byValue()))
	case n.K == "time":
		m.SetObjectForMap(key, byValue())
		v.SetTimeValue(byValue().(time.Time))
		a.AppendValue(json.NewValue(byValue()))
	default:
		call(m, "Set"+T+"Value", key, byValue())
		call(v, "Set"+T+"Value", byValue())
		call(a, "Append"+T+"Value", byValue())
	}
	setPtr(arg, c.Other) // the variable changes, what is stored does not
	for i := 0; i < 2; i++ {
		if err := read("map, set by value", m, n); err != nil {
			return err
		}
		if err := read("value, set by value", v, n); err != nil {
			return err
		}
		if err := readList("array, appended by value", a, n); err != nil {
			return err
		}
		// a value handed out is a copy
		if p := (place{"", m, key}); p.has("Get" + T + "Value") {
			out := p.get("Get" + T + "Value")
			setPtr(ptrTo(out[0]), c.Other)
		}
	}
	// by pointer: the variable is shared
	pm, pv, pa := ptrTo(native(n)), ptrTo(native(n)), ptrTo(native(n))
	m, v, a = newMap(), newValue(), json.NewArray()
	switch {
	case n.K == "errs":
		m.SetObjectForMap(key, pm)
		v.SetErrors(pv.(*[]error))
		a.AppendValue(json.NewValue(pa))
	case n.K == "time":
		m.SetTime(key, pm.(*time.Time))
		v.SetTime(pv.(*time.Time))
		a.AppendValue(json.NewValue(pa))
	default:
		call(m, "Set"+T, key, pm)
		call(v, "Set"+T, pv)
		call(a, "Append"+T, pa)
	}
	for _, w := range []*N{n, c.Other} {
		setPtr(pm, w)
		setPtr(pv, w)
		setPtr(pa, w)
		if err := read("map, set by pointer", m, w); err != nil {
			return err
		}
		if err := read("value, set by pointer", v, w); err != nil {
			return err
		}
		if err := readList("array, appended by pointer", a, w); err != nil {
			return err
		}
	}
	// as an object
	m = newMap()
	m.SetObjectForMap(key, native(n))
	if o := m.GetObjectForMap(key); n.K != "errs" && !reflect.DeepEqual(o, native(n)) && n.K != "float32" && n.K != "float64" {
		return fmt.Errorf("GetObjectForMap gives %v, not %v", o, native(n))
	}
	return read("map, set as object", m, n)
}

// ---- C17: times

type timeCase struct {
	Time   Bin   `json:"time"`
	Places int   `json:"places"`
	Ask    int   `json:"ask"`
	Bad    Bin   `json:"bad"`
	Zero   Bin   `json:"zero"`
	Key    Bin   `json:"key"`
	V      int   `json:"v"`
	Near   []Bin `json:"near,omitempty"`
}

const layout = "2006-01-02 15:04:05"

func badTime(t *rapid.T) string {
	g := genTime(t).Format(layout)
	switch pick(t, 12) {
	case 0:
		return strings.Replace(g, " ", "T", 1)
	case 1:
		return g + oneOf(t, "Z", "+01:00", " ", "x", ".", ".x", " UTC", ".12x", ".1 ", ":00", "\n")
	case 2:
		return oneOf(t, " ", "x", "-", "+", "0") + g
	case 3:
		return g[:5] + oneOf(t, "13", "00", "99", "1x", "-1") + g[7:]
	case 4:
		return g[:8] + oneOf(t, "00", "32", "99", "x1") + g[10:]
	case 5:
		return g[:11] + oneOf(t, "24", "25", "99", "xx", "-1") + g[13:]
	case 6:
		return g[:14] + oneOf(t, "60", "99", "x0", "-1") + g[16:]
	case 7:
		return g[:17] + oneOf(t, "60", "61", "99", "5x", "-1")
	case 8:
		return g[:between(t, 1, 16)]
	case 9:
		return oneOf(t, "2023-02-29 00:00:00", "1900-02-29 12:00:00", "2024-04-31 01:02:03", "2024-02-30 00:00:00.5", "2100-02-29 00:00:00.123456")
	case 10:
		return strings.ReplaceAll(g, oneOf(t, "-", ":"), oneOf(t, "/", ".", "", " "))
	default:
		s := genText(t)
		if s == "now" || s == "zero" || strings.HasPrefix(s, "0000-00-00") || len(s) > 15 && s[4] == '-' {
			s = "soon"
		}
		return s
	}
}

var _ = register(Prop{ID: "C17", Quick: 5000, Thor: 200000, After: []string{"read"},
	Rule: "a generated time (years 1 to 9999, month ends, leap days, 7 zones, sub-second boundaries) stored through every operation, read and serialised; its text with 0 to 9 decimals read back with any and with the number of decimals asked for, held by value, pointer, in a map, in an array and parsed; a text that is no time; non-trivial: always (each case has all three parts)"},
	func(t *rapid.T) timeCase {
		tm := genTime(t)
		var l []Bin
		for i, n := 0, pick(t, 4); i < n; i++ {
			l = append(l, Bin(timeText(nearTime(t, tm))))
		}
		return timeCase{Bin(timeText(tm)), pick(t, 10), oneOf(t, pick(t, 10), -1, 10, pick(t, 10), 1<<62, -1<<62), Bin(badTime(t)),
			Bin(oneOf(t, "zero", "0000-00-00 00:00:00", "0000-00-00 00:00:00.0", "0000-00-00 00:00:00.000000", "0000-00-00 00:00:00.000000000", "0000-00-00 00:00:00.00")), Bin(genKey(t)), pick(t, 8), l}
	},
	func(c timeCase, x *Ctx) error {
		x.Nontrivial(true)
		tm := timeOf(string(c.Time))
		n := &N{K: "time", S: c.Time}
		same := func(what string, got any, e []error, want time.Time) error {
			x.steps++
			v, ok := deref(got)
			if len(e) > 0 || !ok || !v.(time.Time).Equal(want) {
				return fmt.Errorf("%s of %v gives %v, errors %s", what, want.Format(time.RFC3339Nano), v, errText(e))
			}
			return nil
		}
		// stored
		wantText := tm.Format("2006-01-02 15:04:05.000000")
		for v := 0; v < 8; v++ {
			n.V = v
			for _, p := range places(n, string(c.Key)) {
				out := p.get("GetTime")
				if err := same("GetTime on "+p.name, out[0], errsOf(out), tm); err != nil {
					return err
				}
				out = p.get("GetTimeWithDecimalPlaces", c.Places)
				if err := same("GetTimeWithDecimalPlaces on "+p.name, out[0], errsOf(out), tm); err != nil {
					return err
				}
				val, isValue := p.obj.(*json.Value)
				if !isValue {
					text, e := toJSON(p.obj)
					if len(e) > 0 {
						return fmt.Errorf("%v is not serialised: %s", tm, errText(e))
					}
					r, err := readJSON(text)
					if err != nil {
						return fmt.Errorf("%v is serialised to %s: %v", tm, quote(text), err)
					}
					i := r.find(string(c.Key))
					if i < 0 || r.Kids[i].K != "string" || string(r.Kids[i].S) != wantText {
						return fmt.Errorf("%v is serialised to %s", tm, quote(text))
					}
					continue
				}
				g, e := val.GetTimeValue()
				if err := same("GetTimeValue on "+p.name, g, e, tm); err != nil {
					return err
				}
				for _, o := range []any{val, *val, val.GetObject()} {
					if s, e := json.ConvertInterfaceValueToStringValue(o); len(e) > 0 || s != wantText {
						return fmt.Errorf("the text of %v is %q, errors %s", tm, s, errText(e))
					}
				}
			}
		}
		// close to another one, in one document
		if len(c.Near) > 0 {
			list := &N{K: "array"}
			for i, s := range append([]Bin{c.Time}, c.Near...) {
				list.Kids = append(list.Kids, &N{K: "time", S: s, V: c.V + i})
			}
			if err := sameText(buildArray(list), list, "an array of times"); err != nil {
				return err
			}
			for i, v := range *buildArray(list).GetValues() {
				w := timeOf(string(list.Kids[i].S))
				g, e := v.GetTime()
				if err := same("GetTime", g, e, w); err != nil {
					return err
				}
				if s, e := json.ConvertInterfaceValueToStringValue(v); len(e) > 0 || s != w.Format("2006-01-02 15:04:05.000000") {
					return fmt.Errorf("the text of %v is %q, errors %s", w, s, errText(e))
				}
			}
			x.Class("times close to each other")
		}
		// text
		utc := time.Date(tm.Year(), tm.Month(), tm.Day(), tm.Hour(), tm.Minute(), tm.Second(), tm.Nanosecond(), time.UTC)
		unit := time.Duration(1)
		for i := c.Places; i < 9; i++ {
			unit *= 10
		}
		want := utc.Truncate(time.Second).Add(time.Duration(utc.Nanosecond()) / unit * unit)
		text := want.Format(layout)
		if c.Places > 0 {
			text += "." + fmt.Sprintf("%09d", want.Nanosecond())[:c.Places]
		}
		x.Class(fmt.Sprintf("text with %d decimals", c.Places))
		textPlaces := func(s string) ([]place, error) {
			sn := &N{K: "string", S: Bin(s), V: c.V}
			pl := places(sn, string(c.Key))
			m := json.NewMap()
			setMember(m, string(c.Key), sn)
			js, e := toJSON(m)
			if len(e) > 0 {
				return nil, fmt.Errorf("%q is not serialised: %s", s, errText(e))
			}
			w, err := parse(js)
			return append(pl, place{"parsed map", w, string(c.Key)}), err
		}
		pl, err := textPlaces(text)
		if err != nil {
			return err
		}
		for _, p := range pl {
			out := p.get("GetTime")
			if err := same(fmt.Sprintf("GetTime on %s %q", p.name, text), out[0], errsOf(out), want); err != nil {
				return err
			}
			out = p.get("GetTimeWithDecimalPlaces", c.Places)
			if err := same(fmt.Sprintf("GetTimeWithDecimalPlaces(%d) on %s %q", c.Places, p.name, text), out[0], errsOf(out), want); err != nil {
				return err
			}
			if c.Ask < 0 || c.Ask > 9 || c.Ask > 0 && c.Ask != c.Places {
				if out = p.get("GetTimeWithDecimalPlaces", c.Ask); len(errsOf(out)) == 0 {
					return fmt.Errorf("GetTimeWithDecimalPlaces(%d) on %s %q gives %v and no error", c.Ask, p.name, text, out[0])
				}
			}
			if v, ok := p.obj.(*json.Value); ok {
				g, e := v.GetTimeValue()
				if err := same(fmt.Sprintf("GetTimeValue on %s %q", p.name, text), g, e, want); err != nil {
					return err
				}
			}
		}
		// the documented words
		if pl, err = textPlaces(string(c.Zero)); err != nil {
			return err
		}
		for _, p := range pl {
			out := p.get("GetTime")
			v, ok := deref(out[0])
			if e := errsOf(out); len(e) > 0 || !ok || !v.(time.Time).IsZero() {
				return fmt.Errorf("GetTime on %s %q gives %v, errors %s", p.name, string(c.Zero), v, errText(e))
			}
		}
		// no time
		if pl, err = textPlaces(string(c.Bad)); err != nil {
			return err
		}
		for _, p := range pl {
			for _, name := range []string{"GetTime", "GetTimeValue"} {
				if !p.has(name) {
					continue
				}
				if out := p.get(name); len(errsOf(out)) == 0 {
					return fmt.Errorf("%s on %s %q gives %v and no error", name, p.name, string(c.Bad), out[0])
				}
			}
			if out := p.get("GetTimeWithDecimalPlaces", c.Places); len(errsOf(out)) == 0 {
				return fmt.Errorf("GetTimeWithDecimalPlaces(%d) on %s %q gives %v and no error", c.Places, p.name, string(c.Bad), out[0])
			}
		}
		return nil
	})

// ---- C18: text as number or boolean

type coerceCase struct {
	Text Bin `json:"text"`
	V    int `json:"v"`
	Key  Bin `json:"key"`
	Not  *N  `json:"not"`
}

var reInt = regexp.MustCompile(`^-?[0-9]+$`)
var reFloat = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

func coerceText(t *rapid.T) string {
	switch pick(t, 10) {
	case 0, 1, 2:
		v := genBig(t)
		if chance(t, 1, 3) {
			k := oneOf(t, append(append([]string{}, intKinds...), uintKinds...)...)
			v = new(big.Int).Add(oneOf(t, kindMax(k), kindMin(k)), big.NewInt(int64(between(t, -2, 2))))
		}
		if v.Sign() >= 0 && chance(t, 1, 8) {
			return oneOf(t, "0", "00") + v.String()
		}
		if chance(t, 1, 12) {
			sign := ""
			if v.Sign() < 0 {
				sign = "-"
			}
			return sign + strings.Repeat("0", oneOf(t, 1, 2, 5, 18, 20, 25, 40, 70, 300)) + v.Abs(v).String()
		}
		return v.String()
	case 3, 4:
		return numText(t)
	case 5:
		return oneOf(t, "1", "0", "true", "false", "True", "TRUE", "t", "T", "yes", "no", "on", "", "2", "10", "01", " 1", "1 ", "true ", "FALSE", "f", "nil", "null", "1.0", "00", "tru", "truee", "\ttrue", "0x1")
	case 6:
		return oneOf(t, "1_000", "1 000", "1,000", "12abc", "abc", "--1", "1-", "- 1", "", " ", "1 ", " 1", "1\n", "1e", "1.2.3", "0b1", "0o7", "1.5x", "1__0", "٣", "９", "1e5", "1.0", "-", "e5", "1e5.5", "+5", "+0", "+007", "+127", "+128", "+255", "+256", "+18446744073709551615", "+18446744073709551616", "++1", "+-1", "-+1", "+", "+1.5", "+ 1", "-0", "-00", "½", "1/2", "5%", "$5", "1e+")
	default:
		return genText(t)
	}
}

var _ = register(Prop{ID: "C18", Quick: 14000, Thor: 560000, After: []string{"read"},
	Rule:   "a text (integers at and beyond the limits of every width, decimals, near numbers, near booleans, arbitrary text) held by value or pointer in a map, a value and an array, read as every number type and as boolean in both forms; a value that is not text, read as text; non-trivial: the text holds a digit or is a near boolean",
	Assume: []string{"not claimed: NULL read as unsigned, whether texts with a plus sign, or minus zero as unsigned, are refused (when they are read they must give their number), the spellings of infinity, not-a-number and hexadecimal floats, .5 and 5., text as 32-bit float"}},
	func(t *rapid.T) coerceCase {
		return coerceCase{Bin(coerceText(t)), pick(t, 8), Bin(genKey(t)), genNode(t, treeOpt{depth: 1, width: 2, times: true, errs: true})}
	},
	func(c coerceCase, x *Ctx) error {
		s := string(c.Text)
		x.Nontrivial(strings.ContainsAny(s, "0123456789") || strings.HasPrefix(strings.ToLower(s), "t") || strings.HasPrefix(strings.ToLower(s), "f"))
		n := &N{K: "string", S: c.Text, V: c.V}
		pl := places(n, string(c.Key))
		for _, p := range pl {
			for _, k := range append(append([]string{}, intKinds...), uintKinds...) {
				unclaimed := strings.HasPrefix(s, "+") || isUnsigned(k) && strings.HasPrefix(s, "-") && strings.Trim(s[1:], "0") == ""
				if s == "NULL" && isUnsigned(k) {
					continue
				}
				for _, form := range []string{"Get" + title(k), "Get" + title(k) + "Value"} {
					x.steps++
					out := p.get(form)
					e := errsOf(out)
					v, ok := deref(out[0])
					var want *big.Int
					if d := strings.TrimPrefix(s, "+"); reInt.MatchString(d) && (d == s || d[0] != '-') {
						want, _ = new(big.Int).SetString(d, 10)
					}
					if unclaimed && len(e) > 0 { // whether it spells the number or is refused
						continue
					}
					if want == nil || !fits(want, k) {
						x.Class("refused integer")
						if len(e) == 0 {
							return fmt.Errorf("%s on %s %q gives %v and no error", form, p.name, s, v)
						}
					} else {
						x.Class("accepted integer")
						if len(e) > 0 || !ok || bigOf(v).Cmp(want) != 0 {
							return fmt.Errorf("%s on %s %q gives %v, errors %s", form, p.name, s, v, errText(e))
						}
					}
				}
			}
			for _, form := range []string{"GetFloat64", "GetFloat64Value"} {
				out := p.get(form)
				e := errsOf(out)
				v, ok := deref(out[0])
				f, perr := strconv.ParseFloat(s, 64)
				switch {
				case reFloat.MatchString(s):
					if perr != nil {
						continue // beyond the doubles
					}
					x.Class("accepted decimal")
					if len(e) > 0 || !ok || math.Float64bits(v.(float64)) != math.Float64bits(f) {
						return fmt.Errorf("%s on %s %q gives %v, errors %s", form, p.name, s, v, errText(e))
					}
				case perr != nil:
					x.Class("refused decimal")
					if len(e) == 0 {
						return fmt.Errorf("%s on %s %q gives %v and no error", form, p.name, s, v)
					}
				}
			}
			for _, form := range []string{"GetBool", "GetBoolValue"} {
				out := p.get(form)
				e := errsOf(out)
				v, ok := deref(out[0])
				yes, no := s == "1" || s == "true", s == "0" || s == "false"
				x.ClassIf(yes || no, "accepted boolean")
				if !yes && !no {
					if len(e) == 0 {
						return fmt.Errorf("%s on %s %q gives %v and no error", form, p.name, s, v)
					}
				} else if len(e) > 0 || !ok || v.(bool) != yes {
					return fmt.Errorf("%s on %s %q gives %v, errors %s", form, p.name, s, v, errText(e))
				}
			}
		}
		if c.Not.K != "string" && c.Not.K != "null" {
			x.Class(c.Not.K + " as text")
			for _, p := range places(c.Not, string(c.Key)) {
				for _, form := range []string{"GetString", "GetStringValue", "GetRunes"} {
					if out := p.get(form); len(errsOf(out)) == 0 {
						v, _ := deref(out[0])
						return fmt.Errorf("%s on %s holding %s gives %v and no error", form, p.name, clip(c.Not.String()), v)
					}
				}
			}
			a := json.NewArray()
			a.AppendStringValue("x")
			appendTo(a, c.Not)
			if s, e := a.GetStringValue(1); len(e) == 0 {
				return fmt.Errorf("Array.GetStringValue of %s gives %q and no error", clip(c.Not.String()), s)
			}
			if l, e := a.GetArrayOfString(); len(e) == 0 {
				return fmt.Errorf("GetArrayOfString with %s gives %v and no error", clip(c.Not.String()), l)
			}
		}
		return nil
	})
