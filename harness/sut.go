package main

import (
	"errors"
	"fmt"
	"math"
	"net/url"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/matehaxor03/holistic_json/json"
)

// title is the name of a kind in the names of operations.
func title(k string) string {
	switch k {
	case "uint", "uint8", "uint16", "uint32", "uint64":
		return "UInt" + k[4:]
	case "null":
		return "Nil"
	case "errs":
		return "Errors"
	case "err":
		return "Error"
	}
	return strings.ToUpper(k[:1]) + k[1:]
}

// op finds an operation of a map, array or value by its name.
func op(obj any, name string) (reflect.Value, bool) {
	v := reflect.ValueOf(obj)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	f := v.FieldByName(name)
	if !f.IsValid() || f.Kind() != reflect.Func {
		return reflect.Value{}, false
	}
	if f.IsNil() {
		panic(fmt.Sprintf("operation %s of %s is declared but missing", name, v.Type()))
	}
	return f, true
}

// call calls an operation by its name.
func call(obj any, name string, args ...any) []any {
	f, ok := op(obj, name)
	if !ok {
		panic("no operation " + name)
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(f.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	var out []any
	for _, r := range f.Call(in) {
		out = append(out, r.Interface())
	}
	return out
}

func hasOp(obj any, name string) bool { _, ok := op(obj, name); return ok }

// native is the Go value of a scalar node.
func native(n *N) any {
	if isIntKind(n.K) {
		v := n.big()
		switch n.K {
		case "int":
			return int(v.Int64())
		case "int8":
			return int8(v.Int64())
		case "int16":
			return int16(v.Int64())
		case "int32":
			return int32(v.Int64())
		case "int64":
			return v.Int64()
		case "uint":
			return uint(v.Uint64())
		case "uint8":
			return uint8(v.Uint64())
		case "uint16":
			return uint16(v.Uint64())
		case "uint32":
			return uint32(v.Uint64())
		}
		return v.Uint64()
	}
	switch n.K {
	case "null":
		return nil
	case "bool":
		return n.S == "true"
	case "string":
		return string(n.S)
	case "float32":
		return n.f32()
	case "float64":
		return n.f64()
	case "time":
		return timeOf(string(n.S))
	case "errs":
		r := []error{}
		for i, k := range n.Keys {
			if k == noError {
				r = append(r, nil)
			} else {
				r = append(r, makeError(string(k), n.V+i))
			}
		}
		return r
	case "err":
		return makeError(string(n.S), n.V/2+len(n.S))
	case "strs":
		return strs(n.Keys)
	}
	panic("not a scalar: " + n.K)
}

type ownError struct{ text string }

func (e ownError) Error() string { return e.text }

type ownErrorPtr struct{ text string }

func (e *ownErrorPtr) Error() string { return e.text }

// urlErrorMiddle is what stands between the operation and the cause in the text of a certain url.Error.
const urlErrorMiddle = ` "u": `

// makeError makes an error of one of the types that occur in Go programs.
func makeError(text string, v int) error {
	if op, cause, ok := strings.Cut(text, urlErrorMiddle); ok && v%3 > 0 {
		return &url.Error{Op: op, URL: "u", Err: errors.New(cause)}
	}
	if text == "<nil>" && v%3 > 0 {
		return &exec.ExitError{}
	}
	switch v % 6 {
	case 1:
		return fmt.Errorf("%w", errors.New(text))
	case 2:
		return ownError{text}
	case 3:
		return &ownErrorPtr{text}
	case 4:
		return errors.Join(errors.New(text))
	}
	return errors.New(text)
}

// ptrTo is a pointer to a fresh copy of a value.
func ptrTo(v any) any {
	if e, ok := v.(error); ok {
		return &e
	}
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p.Interface()
}

// setMember stores a node under a name through the operation that n.V selects.
func setMember(m *json.Map, key string, n *N) {
	switch n.K {
	case "map":
		c := buildMap(n)
		switch n.V {
		case 0, 1:
			m.SetMap(key, c)
		case 2, 3:
			m.SetMapValue(key, *c)
		case 4:
			m.SetValue(key, json.NewValue(c))
		case 5:
			m.SetValue(key, json.NewValue(*c))
		case 6:
			m.SetObjectForMap(key, c)
		default:
			m.SetObjectForMap(key, *c)
		}
		return
	case "array":
		c := buildArray(n)
		switch n.V {
		case 0, 1:
			m.SetArray(key, c)
		case 2, 3:
			m.SetArrayValue(key, *c)
		case 4:
			m.SetValue(key, json.NewValue(c))
		case 5:
			m.SetValue(key, json.NewValue(*c))
		case 6:
			m.SetObjectForMap(key, c)
		default:
			m.SetObjectForMap(key, *c)
		}
		return
	case "null":
		switch n.V {
		case 0, 1, 2:
			m.SetNil(key)
		case 3, 4:
			m.SetValue(key, json.NewValue(nil))
		case 5:
			m.SetObjectForMap(key, nil)
		case 6:
			m.SetString(key, nil)
		case 8:
			m.SetValue(key, nil)
		case 9:
			m.SetMap(key, nil)
		case 10:
			m.SetArray(key, nil)
		case 11:
			m.SetBool(key, nil)
		case 12:
			m.SetTime(key, nil)
		case 13:
			m.SetObjectForMap(key, (*json.Map)(nil))
		default:
			m.SetInt64(key, nil)
		}
		return
	}
	v := native(n)
	switch n.K {
	case "time":
		switch n.V {
		case 0, 1, 2:
			m.SetTime(key, ptrTo(v).(*time.Time))
		case 3, 4:
			w := json.NewValue(nil)
			w.SetTimeValue(v.(time.Time))
			m.SetValue(key, w)
		default:
			m.SetObjectForMap(key, v)
		}
		return
	case "err", "strs":
		switch {
		case n.V < 3:
			m.SetValue(key, makeValue(n))
		case n.V < 6:
			m.SetObjectForMap(key, v)
		default:
			m.SetObjectForMap(key, ptrTo(v))
		}
		return
	case "errs":
		switch {
		case n.V < 3:
			m.SetErrors(key, v.([]error))
		case n.V < 6:
			m.SetValue(key, makeValue(n))
		case n.V == 6:
			m.SetObjectForMap(key, v)
		default:
			m.SetObjectForMap(key, ptrTo(v))
		}
		return
	}
	switch n.V {
	case 0, 1:
		call(m, "Set"+title(n.K)+"Value", key, v)
	case 2, 3:
		call(m, "Set"+title(n.K), key, ptrTo(v))
	case 4:
		m.SetValue(key, makeValue(n))
	case 5:
		m.SetValue(key, json.NewValue(ptrTo(v)))
	case 6:
		m.SetObjectForMap(key, v)
	default:
		m.SetObjectForMap(key, ptrTo(v))
	}
}

// appendTo appends a node through the operation that n.V selects.
func appendTo(a *json.Array, n *N) {
	switch n.K {
	case "map":
		c := buildMap(n)
		switch n.V {
		case 0, 1, 2:
			a.AppendMap(c)
		case 3, 4:
			a.AppendMapValue(*c)
		case 5:
			a.AppendValue(json.NewValue(*c))
		default:
			a.AppendValueValue(json.NewValueValue(c))
		}
		return
	case "array":
		c := buildArray(n)
		switch n.V {
		case 0, 1, 2:
			a.AppendArray(c)
		case 3, 4:
			a.AppendArrayValue(*c)
		case 5:
			a.AppendValue(json.NewValue(*c))
		default:
			a.AppendValueValue(json.NewValueValue(c))
		}
		return
	case "null":
		switch n.V {
		case 0, 1, 2, 3:
			a.AppendNil()
		case 4, 5:
			a.AppendValue(json.NewValue(nil))
		case 6:
			a.AppendString(nil)
		case 8, 12:
			a.AppendValue(nil)
		case 9:
			a.AppendMap(nil)
		case 10:
			a.AppendArray(nil)
		case 11:
			a.AppendBool(nil)
		case 13:
			a.AppendValueValue(json.NewValueValue((*json.Array)(nil)))
		default:
			a.AppendFloat64(nil)
		}
		return
	case "time", "errs", "err", "strs":
		a.AppendValue(makeValue(n))
		return
	}
	v := native(n)
	switch n.V {
	case 0, 1, 2:
		call(a, "Append"+title(n.K)+"Value", v)
	case 3, 4:
		call(a, "Append"+title(n.K), ptrTo(v))
	case 5:
		a.AppendValue(json.NewValue(ptrTo(v)))
	case 6:
		a.AppendValueValue(*makeValue(n))
	default:
		a.AppendValue(makeValue(n))
	}
}

// makeValue makes a free standing value through the operation that n.V selects.
func makeValue(n *N) *json.Value {
	switch n.K {
	case "map":
		c := buildMap(n)
		w := json.NewValue(nil)
		switch n.V & 3 {
		case 0:
			w.SetMap(c)
		case 1:
			w.SetMapValue(*c)
		case 2:
			return json.NewValue(c)
		default:
			return json.NewValue(*c)
		}
		return w
	case "array":
		c := buildArray(n)
		w := json.NewValue(nil)
		switch n.V & 3 {
		case 0:
			w.SetArray(c)
		case 1:
			w.SetArrayValue(*c)
		case 2:
			return json.NewValue(c)
		default:
			return json.NewValue(*c)
		}
		return w
	case "null":
		w := json.NewValue(nil)
		if n.V >= 4 {
			w.SetStringValue("x")
			w.SetNil()
		}
		return w
	}
	v := native(n)
	w := json.NewValue(nil)
	if n.K == "strs" {
		if n.V&1 == 0 {
			return json.NewValue(v)
		}
		w.SetObject(ptrTo(v))
		return w
	}
	switch n.V & 3 {
	case 0:
		call(w, "Set"+title(n.K)+"Value", v)
	case 1:
		call(w, "Set"+title(n.K), ptrTo(v))
	case 2:
		return json.NewValue(v)
	default:
		w.SetObject(ptrTo(v))
	}
	return w
}

func buildMap(n *N) *json.Map {
	m := json.NewMap()
	for i, k := range n.Keys {
		setMember(m, string(k), n.Kids[i])
	}
	return m
}

func buildArray(n *N) *json.Array {
	a := json.NewArray()
	for _, k := range n.Kids {
		appendTo(a, k)
	}
	return a
}

func errText(l []error) string {
	var p []string
	for _, e := range l {
		if e == nil {
			p = append(p, "<nil error>")
		} else {
			p = append(p, e.Error())
		}
	}
	return strings.Join(p, "; ")
}

// cmpValue tells how a value differs from what it should hold; width asks for the exact number type as well.
func cmpValue(v *json.Value, n *N, path string, width bool) error {
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s: should be %s: %s", path, clip(n.String()), fmt.Sprintf(f, a...))
	}
	if v == nil {
		return fail("there is no value")
	}
	if n.K == "null" {
		if !v.IsNil() {
			return fail("not null but %s", v.GetType())
		}
		return nil
	}
	if v.IsNil() {
		return fail("reads as null")
	}
	switch {
	case n.K == "bool":
		b, e := v.GetBoolValue()
		if e != nil || !v.IsBool() || b != (n.S == "true") {
			return fail("IsBool %v, reads %v, errors %s", v.IsBool(), b, errText(e))
		}
	case n.K == "string":
		s, e := v.GetStringValue()
		if e != nil || !v.IsString() || s != string(n.S) {
			return fail("IsString %v, reads %s, errors %s", v.IsString(), quote(s), errText(e))
		}
	case isSigned(n.K):
		i, e := v.GetInt64Value()
		if e != nil || strconv.FormatInt(i, 10) != string(n.S) {
			return fail("reads %d, errors %s", i, errText(e))
		}
	case isUnsigned(n.K):
		i, e := v.GetUInt64Value()
		if e != nil || strconv.FormatUint(i, 10) != string(n.S) {
			return fail("reads %d, errors %s", i, errText(e))
		}
	case isFloatKind(n.K):
		f, e := v.GetFloat64Value()
		want := n.f64()
		if n.K == "float32" {
			want = wide(n.f32())
		}
		if e != nil || math.Float64bits(f) != math.Float64bits(want) {
			return fail("reads %v not %v, errors %s", f, want, errText(e))
		}
	case n.K == "time":
		tm, e := v.GetTimeValue()
		if e != nil || !tm.Equal(timeOf(string(n.S))) {
			return fail("reads %v, errors %s", tm, errText(e))
		}
	case n.K == "errs":
		l, e := v.GetErrors()
		if e != nil || len(l) != len(n.Keys) {
			return fail("reads %q, errors %s", l, errText(e))
		}
		for i := range l {
			if n.Keys[i] == noError {
				if l[i] != nil {
					return fail("error %d is %v", i, l[i])
				}
			} else if l[i] == nil || l[i].Error() != string(n.Keys[i]) {
				return fail("error %d is %v", i, l[i])
			}
		}
	case n.K == "err":
		s, ok := errorText(v.GetObject())
		if t, e := json.ConvertInterfaceValueToStringValue(v); e != nil || !ok || s != string(n.S) || t != s {
			return fail("the object is %v %v, its text %q, errors %s", ok, s, t, errText(e))
		}
	case n.K == "strs":
		var l []string
		switch o := v.GetObject().(type) {
		case []string:
			l = o
		case *[]string:
			l = *o
		default:
			return fail("the object is a %T", o)
		}
		texts, e := v.GetErrors()
		if e != nil || len(l) != len(n.Keys) || len(texts) != len(l) {
			return fail("the object is %q, as errors %q, errors %s", l, texts, errText(e))
		}
		for i := range l {
			if l[i] != string(n.Keys[i]) || texts[i] == nil || texts[i].Error() != l[i] {
				return fail("text %d is %q, as an error %v", i, l[i], texts[i])
			}
		}
	case n.K == "map":
		m, e := v.GetMap()
		if e != nil || m == nil || !v.IsMap() {
			return fail("IsMap %v, map %v, errors %s", v.IsMap(), m != nil, errText(e))
		}
		return cmpMap(m, n, path, width)
	case n.K == "array":
		a, e := v.GetArray()
		if e != nil || a == nil || !v.IsArray() {
			return fail("IsArray %v, array %v, errors %s", v.IsArray(), a != nil, errText(e))
		}
		return cmpArray(a, n, path, width)
	default:
		panic("kind " + n.K)
	}
	if width && (isIntKind(n.K) || isFloatKind(n.K)) {
		if ok := call(v, "Is"+title(n.K))[0].(bool); !ok {
			return fail("Is%s is false, type %s", title(n.K), v.GetType())
		}
	}
	return nil
}

// errorText is the text of an object that is an error, held by value or pointer.
func errorText(o any) (string, bool) {
	switch e := o.(type) {
	case error:
		return e.Error(), true
	case *error:
		return (*e).Error(), true
	}
	return "", false
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func cmpMap(m *json.Map, n *N, path string, width bool) error {
	keys := m.GetKeys()
	if len(keys) != len(n.Keys) {
		return fmt.Errorf("%s: should be %s: has names %q", path, clip(n.String()), keys)
	}
	for i := range keys {
		if keys[i] != string(n.Keys[i]) {
			return fmt.Errorf("%s: should be %s: has names %q", path, clip(n.String()), keys)
		}
	}
	for i, k := range n.Keys {
		if !m.HasKey(string(k)) {
			return fmt.Errorf("%s: HasKey(%q) is false", path, string(k))
		}
		sub := path + "." + strconv.QuoteToASCII(string(k))
		if err := cmpValue(m.GetValue(string(k)), n.Kids[i], sub, width); err != nil {
			return err
		}
		if kid := n.Kids[i]; width && kid.size() <= 12 { // the same through the map's own reads
			var err error
			switch kid.K {
			case "map":
				r, e := m.GetMap(string(k))
				if r == nil || e != nil {
					return fmt.Errorf("%s: GetMap gives %v and reports %s", sub, r != nil, errText(e))
				}
				err = cmpMap(r, kid, sub+" (GetMap)", true)
			case "array":
				r, e := m.GetArray(string(k))
				if r == nil || e != nil {
					return fmt.Errorf("%s: GetArray gives %v and reports %s", sub, r != nil, errText(e))
				}
				err = cmpArray(r, kid, sub+" (GetArray)", true)
			}
			if err != nil {
				return err
			}
		}
	}
	return nil
}

func cmpArray(a *json.Array, n *N, path string, width bool) error {
	v := a.GetValues()
	if v == nil || len(*v) != len(n.Kids) || a.Len() != len(n.Kids) {
		return fmt.Errorf("%s: should be %s: has length %d", path, clip(n.String()), a.Len())
	}
	for i := range *v {
		if err := cmpValue((*v)[i], n.Kids[i], path+"["+strconv.Itoa(i)+"]", width); err != nil {
			return err
		}
		if kid := n.Kids[i]; width && kid.K == "map" && kid.size() <= 12 {
			r, e := a.GetMap(i)
			if r == nil || e != nil {
				return fmt.Errorf("%s[%d]: GetMap gives %v and reports %s", path, i, r != nil, errText(e))
			}
			if err := cmpMap(r, kid, fmt.Sprintf("%s[%d] (GetMap)", path, i), true); err != nil {
				return err
			}
		}
	}
	return nil
}

// toJSON serialises anything that can be serialised.
func toJSON(obj any) (string, []error) {
	var b strings.Builder
	var e []error
	switch v := obj.(type) {
	case *json.Map:
		e = v.ToJSONString(&b)
	case *json.Array:
		e = v.ToJSONString(&b)
	default:
		e = json.ConvertInterfaceValueToJSONStringValue(&b, v)
	}
	return b.String(), e
}

func parse(s string) (*json.Map, error) {
	m, e := json.Parse(s)
	if len(e) > 0 {
		return nil, fmt.Errorf("Parse(%s) reports %s", quote(s), clip(errText(e)))
	}
	if m == nil {
		return nil, fmt.Errorf("Parse(%s) gives neither a document nor errors", quote(s))
	}
	return m, nil
}

// dump writes down everything that can be read from a value, map or array.
func dump(obj any) string {
	var b strings.Builder
	dumpTo(&b, obj)
	return b.String()
}

func dumpTo(b *strings.Builder, obj any) {
	switch v := obj.(type) {
	case *json.Map:
		b.WriteByte('{')
		keys := v.GetKeys()
		for i, k := range keys {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(strconv.QuoteToASCII(k))
			if !v.HasKey(k) {
				b.WriteString("!absent")
			}
			b.WriteString(": ")
			dumpTo(b, v.GetValue(k))
		}
		b.WriteByte('}')
		if vals := v.Values().GetValues(); len(*vals) != len(keys) {
			fmt.Fprintf(b, "!%d values", len(*vals))
		} else {
			for i, k := range keys {
				if (*vals)[i] != v.GetValue(k) {
					fmt.Fprintf(b, "!value %d is another", i)
				}
			}
		}
	case *json.Array:
		b.WriteByte('[')
		for i, e := range *v.GetValues() {
			if i > 0 {
				b.WriteString(", ")
			}
			dumpTo(b, e)
		}
		b.WriteByte(']')
	case *json.Value:
		switch {
		case v == nil || v.IsNil():
			b.WriteString("null")
		case v.IsMap():
			m, e := v.GetMap()
			if e != nil || m == nil {
				b.WriteString("!map " + errText(e))
				return
			}
			dumpTo(b, m)
		case v.IsArray():
			a, e := v.GetArray()
			if e != nil || a == nil {
				b.WriteString("!array " + errText(e))
				return
			}
			dumpTo(b, a)
		case v.IsBool():
			x, e := v.GetBoolValue()
			fmt.Fprintf(b, "%v%s", x, errText(e))
		case v.IsString():
			x, e := v.GetStringValue()
			b.WriteString(strconv.QuoteToASCII(x) + errText(e))
		default:
			for _, k := range numKinds {
				if call(v, "Is"+title(k))[0].(bool) && strings.HasSuffix(v.GetType(), k) {
					if isFloatKind(k) {
						x, e := v.GetFloat64Value()
						fmt.Fprintf(b, "%s(%x)%s", k, math.Float64bits(x), errText(e))
					} else if isSigned(k) {
						x, e := v.GetInt64Value()
						fmt.Fprintf(b, "%s(%d)%s", k, x, errText(e))
					} else {
						x, e := v.GetUInt64Value()
						fmt.Fprintf(b, "%s(%d)%s", k, x, errText(e))
					}
					return
				}
			}
			switch ty := v.GetType(); {
			case strings.HasSuffix(ty, "time.Time"):
				x, e := v.GetTimeValue()
				b.WriteString("time(" + x.Format(time.RFC3339Nano) + ")" + errText(e))
			case strings.HasSuffix(ty, "[]error"):
				x, e := v.GetErrors()
				b.WriteString("errors[")
				for _, k := range x {
					if k == nil {
						b.WriteString("nil,")
					} else {
						b.WriteString(strconv.QuoteToASCII(k.Error()) + ",")
					}
				}
				b.WriteString("]" + errText(e))
			case strings.HasSuffix(ty, "[]string"):
				x, e := v.GetErrors()
				fmt.Fprintf(b, "texts%q%s", x, errText(e))
			default:
				if s, ok := errorText(v.GetObject()); ok {
					t, e := json.ConvertInterfaceValueToStringValue(v)
					b.WriteString("error(" + strconv.QuoteToASCII(s))
					if s != t || len(e) > 0 {
						b.WriteString(" as text " + strconv.QuoteToASCII(t) + errText(e))
					}
					b.WriteString(")")
					return
				}
				b.WriteString("other(" + ty + ")")
			}
		}
	default:
		panic(fmt.Sprintf("dump of %T", obj))
	}
}

var numKinds = append(append(append([]string{}, intKinds...), uintKinds...), "float32", "float64")
