package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/matehaxor03/holistic_json/json"
)

// poke writes through every pointer that the reads of an object hand out.
func poke(obj any, key string, salt int) {
	tp := reflect.TypeOf(obj).Elem()
	for i := 0; i < tp.NumField(); i++ {
		f := tp.Field(i)
		if len(f.Name) < 4 || f.Name[:3] != "Get" || f.Name == "GetMap" || f.Name == "GetArray" || f.Name == "GetValues" || f.Name == "GetValue" || f.Type.Kind() != reflect.Func {
			continue
		}
		var args []any
		skip := false
		for j := 0; j < f.Type.NumIn(); j++ {
			switch f.Type.In(j).Kind() {
			case reflect.String:
				args = append(args, key)
			case reflect.Int:
				args = append(args, salt%10)
			default:
				skip = true
			}
		}
		if skip {
			continue
		}
		out := call(obj, f.Name, args...)
		if len(out) == 0 || out[0] == nil {
			continue
		}
		scribble(reflect.ValueOf(out[0]), 0)
	}
}

// scribble overwrites what a result points to or lists.
func scribble(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() && v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Ptr:
		if v.IsNil() || v.Type().Elem().Kind() == reflect.Struct && v.Type().Elem().Name() != "Time" {
			return
		}
		e := v.Elem()
		switch e.Kind() {
		case reflect.Bool:
			e.SetBool(!e.Bool())
		case reflect.String:
			e.SetString(e.String() + "!")
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			e.SetInt(e.Int() ^ 1)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			e.SetUint(e.Uint() ^ 1)
		case reflect.Float32, reflect.Float64:
			e.SetFloat(e.Float()/2 + 1)
		case reflect.Slice:
			scribble(e, depth+1)
		case reflect.Struct:
			e.Set(reflect.Zero(e.Type()))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if e := v.Index(i); e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface {
				scribble(e, depth+1)
			}
		}
	}
}

// ---- C14: every declared operation can be called with anything

type anyCall struct {
	Obj  int   `json:"obj"`
	Op   int   `json:"op"`
	Args []int `json:"args"`
}

type anyCase struct {
	Docs  []*N      `json:"docs"`
	Start []int     `json:"start"`
	Calls []anyCall `json:"calls"`
}

type oddStruct struct {
	A int
	b *oddStruct
}

type oddString string

var nastyTexts = []string{"", "NULL", "null", "nil", "<nil>", "%s%d%!", "\"", "\\", "\x00", "\xff\xfe", "true", "-1", "1e999", "99999999999999999999", "0.1", "now", "zero", "0000-00-00 00:00:00", "2020-02-30 00:00:00", "{", "[]", "}{", "日本語 \U0001F600", "\u2028\n\r\t"}

var nastyFloats = []float64{0, math.Copysign(0, -1), 1.5, -2.25, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, 9.3e18, -9.3e18, 4294967296, 0.1}

var nastyInts = []int64{0, 1, -1, 2, 3, 7, 127, 128, -129, 32768, 1 << 31, 1<<63 - 1, -1 << 63, -5, 1000000}

// smallNode is one of many small documents.
func smallNode(r int) *N {
	s := func(i int) *N { return &N{K: "string", S: Bin(nastyTexts[i%len(nastyTexts)]), V: i % 8} }
	switch r % 12 {
	case 0:
		return s(r / 12)
	case 1:
		return &N{K: "null", V: r / 12 % 8}
	case 2:
		return &N{K: "bool", S: "true", V: r / 12 % 8}
	case 3:
		return &N{K: "int64", S: Bin(strconv.FormatInt(nastyInts[r/12%len(nastyInts)], 10)), V: r / 12 % 8}
	case 4:
		return &N{K: "uint64", S: "18446744073709551615", V: r / 12 % 8}
	case 5:
		return &N{K: "float32", S: "1.5", V: r / 12 % 8}
	case 6:
		return &N{K: "time", S: Bin(timeText(time.Date(2021, 2, 3, 4, 5, 6, r%1000, time.UTC))), V: r / 12 % 8}
	case 7:
		return &N{K: "errs", Keys: []Bin{"one %d", ""}, V: r / 12 % 8}
	case 8:
		return &N{K: "map", V: r / 12 % 8}
	case 9:
		return &N{K: "array", V: r / 12 % 8}
	case 10:
		return &N{K: "map", Keys: []Bin{"a", Bin(nastyTexts[r/12%len(nastyTexts)])}, Kids: []*N{s(r), {K: "array", Kids: []*N{s(r + 1), {K: "null"}}}}, V: r / 12 % 8}
	}
	return &N{K: "array", Kids: []*N{s(r), {K: "int", S: "5"}, {K: "null", V: r % 8}}, V: r / 12 % 8}
}

// anything is one of many Go values of any type, r telling which.
func anything(r int, pool []any) any {
	if r < 0 {
		r = -r
	}
	k := r / 31
	switch r % 31 {
	case 0:
		return nil
	case 1:
		return (*json.Map)(nil)
	case 2:
		return (*json.Array)(nil)
	case 3:
		return (*json.Value)(nil)
	case 4:
		return (*string)(nil)
	case 5:
		return (*time.Time)(nil)
	case 6:
		return []error(nil)
	case 7:
		return (*[]error)(nil)
	case 8:
		return []error{nil, errors.New("x"), makeError(nastyTexts[k%len(nastyTexts)], k)}
	case 9:
		return makeError(nastyTexts[k%len(nastyTexts)], k)
	case 10:
		return oddStruct{A: k}
	case 11:
		return &oddStruct{A: k, b: &oddStruct{}}
	case 12:
		return (*oddStruct)(nil)
	case 13:
		return make(chan int)
	case 14:
		return []int{1, 2, k}
	case 15:
		return map[string]any{"a": k, "b": nil}
	case 16:
		return complex(1, float64(k))
	case 17:
		return func() {}
	case 18:
		return func(string) []error { return nil }
	case 19:
		f := func(string) []error { return []error{errors.New("f")} }
		return &f
	case 20:
		return (*func(string) []error)(nil)
	case 21:
		v := json.NewValue(nil)
		v.SetStringValue(nastyTexts[k%len(nastyTexts)])
		return &v
	case 22:
		return oddString("odd")
	case 23:
		return []byte("bytes")
	case 24:
		return uintptr(k)
	case 25:
		return nastyFloats[k%len(nastyFloats)]
	case 26:
		return ptrTo(float32(nastyFloats[k%len(nastyFloats)]))
	case 27:
		return [2]string{"a", "b"}
	case 28:
		return []any{1, nil, "x"}
	}
	return native(&N{K: "string", S: Bin(nastyTexts[k%len(nastyTexts)])})
}

// argument is one of many arguments of a type, r telling which.
func argument(ty reflect.Type, r int, recv any, pool []any) reflect.Value {
	if r < 0 {
		r = -r
	}
	if ty.Kind() == reflect.Ptr && r%5 == 0 {
		return reflect.Zero(ty)
	}
	k := r / 5
	switch ty {
	case reflect.TypeOf((*json.Map)(nil)):
		if m, _, err := startMap(k%len(mapStarts), &N{K: "map", Keys: []Bin{"a"}, Kids: []*N{smallNode(k)}}); err == nil {
			return reflect.ValueOf(m)
		}
		return reflect.ValueOf(json.NewMap())
	case reflect.TypeOf(json.Map{}):
		return reflect.ValueOf(*buildMap(&N{K: "map", Keys: []Bin{"a"}, Kids: []*N{smallNode(k)}}))
	case reflect.TypeOf((*json.Array)(nil)):
		return reflect.ValueOf(buildArray(&N{K: "array", Kids: []*N{smallNode(k), smallNode(k / 2)}}))
	case reflect.TypeOf(json.Array{}):
		return reflect.ValueOf(*buildArray(&N{K: "array", Kids: []*N{smallNode(k)}}))
	case reflect.TypeOf((*json.Value)(nil)):
		if k%3 == 0 {
			return reflect.ValueOf(json.NewValue(anything(k/3, pool)))
		}
		return reflect.ValueOf(makeValue(smallNode(k / 3)))
	case reflect.TypeOf(json.Value{}):
		if k%3 == 0 {
			return reflect.ValueOf(json.NewValueValue(anything(k/3, pool)))
		}
		return reflect.ValueOf(*makeValue(smallNode(k / 3)))
	case reflect.TypeOf((*strings.Builder)(nil)):
		var b strings.Builder
		b.WriteString(nastyTexts[k%len(nastyTexts)])
		return reflect.ValueOf(&b)
	case reflect.TypeOf((*time.Time)(nil)):
		tm := time.Unix(nastyInts[k%len(nastyInts)]%(1<<40), int64(k))
		return reflect.ValueOf(&tm)
	case reflect.TypeOf(time.Time{}):
		if k%2 == 0 {
			return reflect.ValueOf(time.Time{})
		}
		return reflect.ValueOf(time.Unix(nastyInts[k%len(nastyInts)]%(1<<40), int64(k)))
	case reflect.TypeOf((*error)(nil)).Elem():
		switch k % 4 {
		case 0:
			return reflect.Zero(ty)
		case 1:
			return reflect.ValueOf((*ownErrorPtr)(nil))
		}
		return reflect.ValueOf(makeError(nastyTexts[k%len(nastyTexts)], k))
	case reflect.TypeOf([]error{}):
		switch k % 4 {
		case 0:
			return reflect.Zero(ty)
		case 1:
			return reflect.ValueOf([]error{})
		case 2:
			return reflect.ValueOf([]error{nil})
		}
		return reflect.ValueOf([]error{makeError(nastyTexts[k%len(nastyTexts)], k), nil, makeError("b", k+1)})
	}
	switch ty.Kind() {
	case reflect.Interface:
		v := reflect.New(ty).Elem()
		if a := anything(k, pool); a != nil {
			v.Set(reflect.ValueOf(a))
		}
		return v
	case reflect.String:
		if m, ok := recv.(*json.Map); ok && r%4 != 0 {
			if keys := m.GetKeys(); len(keys) > 0 {
				return reflect.ValueOf(keys[k%len(keys)]).Convert(ty)
			}
		}
		return reflect.ValueOf(nastyTexts[k%len(nastyTexts)]).Convert(ty)
	case reflect.Bool:
		return reflect.ValueOf(k%2 == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a, ok := recv.(*json.Array); ok && r%3 != 0 {
			return reflect.ValueOf(k%(a.Len()+2) - 1).Convert(ty)
		}
		return reflect.ValueOf(nastyInts[k%len(nastyInts)]).Convert(ty)
	case reflect.Float32, reflect.Float64:
		return reflect.ValueOf(nastyFloats[k%len(nastyFloats)]).Convert(ty)
	case reflect.Func:
		if k%2 == 0 {
			return reflect.Zero(ty)
		}
		return reflect.MakeFunc(ty, func([]reflect.Value) []reflect.Value {
			var out []reflect.Value
			for i := 0; i < ty.NumOut(); i++ {
				out = append(out, reflect.Zero(ty.Out(i)))
			}
			return out
		})
	case reflect.Ptr:
		p := reflect.New(ty.Elem())
		p.Elem().Set(argument(ty.Elem(), k, recv, pool))
		return p
	case reflect.Slice:
		if k%3 == 0 {
			return reflect.Zero(ty)
		}
		s := reflect.MakeSlice(ty, 0, 2)
		for i := 0; i < k%3; i++ {
			s = reflect.Append(s, argument(ty.Elem(), k+i, recv, pool))
		}
		return s
	case reflect.Map:
		m := reflect.MakeMap(ty)
		for i := 0; i < k%3; i++ {
			m.SetMapIndex(argument(ty.Key(), k+i, recv, pool), argument(ty.Elem(), k+7*i, recv, pool))
		}
		return m
	}
	return reflect.Zero(ty)
}

// declared checks that no operation of an object is missing.
func declared(obj any) error {
	v := reflect.ValueOf(obj).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Func && v.Field(i).IsNil() {
			return fmt.Errorf("%s declares %s, but it cannot be called", v.Type(), v.Type().Field(i).Name)
		}
	}
	return nil
}

// funcFields are the operations of a type.
func funcFields(obj any) []string {
	ty := reflect.TypeOf(obj).Elem()
	var l []string
	for i := 0; i < ty.NumField(); i++ {
		if ty.Field(i).Type.Kind() == reflect.Func && ty.Field(i).IsExported() {
			l = append(l, ty.Field(i).Name)
		}
	}
	return l
}

// callAny calls an operation, turning a panic into an error.
func callAny(obj any, name string, args []reflect.Value) (out []reflect.Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = crash{fmt.Sprintf("%T.%s(%s) panics: %v\n%s", obj, name, showArgs(args), r, debug.Stack())}
		}
	}()
	f, _ := op(obj, name)
	return f.Call(args), nil
}

func showArgs(args []reflect.Value) string {
	var l []string
	for _, a := range args {
		s := a.Type().String()
		switch a.Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Func, reflect.Map:
			if a.IsNil() {
				s += " nil"
			} else if a.Kind() == reflect.Interface {
				s = fmt.Sprintf("%s %s", s, a.Elem().Type())
			}
		case reflect.String:
			s = strconv.QuoteToASCII(a.String())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			s = strconv.FormatInt(a.Int(), 10)
		}
		l = append(l, s)
	}
	return strings.Join(l, ", ")
}

// packageCalls are the package's own functions, called with anything.
func packageCall(k int, args []int, pool []any) (out any, err error) {
	at := func(i int) int {
		if i < len(args) {
			return args[i]
		}
		return 0
	}
	var name string
	defer func() {
		if r := recover(); r != nil {
			err = crash{fmt.Sprintf("%s with arguments %v panics: %v\n%s", name, args, r, debug.Stack())}
		}
	}()
	switch k % 6 {
	case 0:
		name = "NewValue"
		return json.NewValue(anything(at(0), pool)), nil
	case 1:
		name = "NewMapOfValues"
		if at(2)%7 == 0 {
			return json.NewMapOfValues(nil), nil
		}
		var m map[string]any
		if at(2)%7 > 1 {
			m = map[string]any{"": anything(at(0), pool), "b": anything(at(1), pool), nastyTexts[at(2)%len(nastyTexts)]: anything(at(2), pool)}
		}
		return json.NewMapOfValues(&m), nil
	case 2:
		name = "NewArrayOfValues"
		if at(2)%7 == 0 {
			return json.NewArrayOfValues(nil), nil
		}
		var l []any
		if at(2)%7 > 1 {
			l = []any{anything(at(0), pool), anything(at(1), pool), anything(at(2), pool)}
		}
		return json.NewArrayOfValues(&l), nil
	case 3:
		name = "ConvertInterfaceValueToJSONStringValue"
		var b *strings.Builder
		if at(1)%4 > 0 {
			b = &strings.Builder{}
		}
		json.ConvertInterfaceValueToJSONStringValue(b, pickObject(at(0), pool))
	case 4:
		name = "ConvertInterfaceValueToStringValue"
		json.ConvertInterfaceValueToStringValue(pickObject(at(0), pool))
	default:
		name = "NewArray, NewArrayValue, NewMap, NewMapValue, NewValueValue"
		v := json.NewValueValue(anything(at(0), pool))
		a, m := json.NewArrayValue(), json.NewMapValue()
		for _, o := range []any{&v, &a, &m, json.NewArray(), json.NewMap()} {
			if err := declared(o); err != nil {
				return nil, err
			}
		}
		switch at(1) % 3 {
		case 0:
			return &v, nil
		case 1:
			return &a, nil
		}
		return &m, nil
	}
	return nil, nil
}

func pickObject(r int, pool []any) any {
	if r < 0 {
		r = -r
	}
	if r%2 == 0 {
		return anything(r/2, pool)
	}
	return pool[r/2%len(pool)]
}

var _ = register(Prop{ID: "C14", Quick: 10000, Thor: 400000,
	Rule:   "one to three objects (maps in seven ways of coming into being, arrays, values of every content) and one to 30 calls of any operation they declare, or of a function of the package, chosen by reflection over all of them, with arguments of every kind: nil pointers, missing builders and lists, nil errors, present, absent and nasty names, indexes in and out of range, extreme numbers, times and texts, containers, values of types the package does not know; objects that calls return join in; every object must have all declared operations and every call must return; non-trivial: at least three calls of different operations",
	Assume: []string{"objects come from the package's constructors, from parsing or from calls: a zero struct such as json.Map{} has no operations by design", "no container is put into itself, which makes a document endless", "one goroutine at a time"}},
	func(t *rapid.T) anyCase {
		c := anyCase{}
		for i, n := 0, between(t, 1, 3); i < n; i++ {
			c.Start = append(c.Start, pick(t, len(mapStarts)+4))
			d := genMap(t, treeOpt{depth: 2, width: 4, times: true, errs: true})
			if chance(t, 1, 30) {
				d.set("bulk", genBulk(t, treeOpt{times: true, errs: true, bulk: 70}, "map", "array"))
			}
			c.Docs = append(c.Docs, d)
		}
		for i, n := 0, between(t, 1, 30); i < n; i++ {
			c.Calls = append(c.Calls, anyCall{pick(t, 30), pick(t, 140), []int{pick(t, 3000), pick(t, 3000), pick(t, 3000)}})
		}
		return c
	},
	func(c anyCase, x *Ctx) error {
		var pool []any
		add := func(o any) error {
			if v := reflect.ValueOf(o); !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
				return nil
			}
			if err := declared(o); err != nil {
				return err
			}
			if len(pool) < 30 {
				pool = append(pool, o)
			}
			return nil
		}
		for i, d := range c.Docs {
			var o any
			switch s := c.Start[i] - len(mapStarts); {
			case s < 0:
				m, _, err := startMap(c.Start[i], d)
				if err != nil {
					return err
				}
				o = m
			case s == 0:
				o = buildArray(&N{K: "array", Kids: d.Kids})
			case s == 1 && len(d.Kids) > 0:
				o = makeValue(d.Kids[0])
			case s == 2:
				o = json.NewValue(anything(d.size()*7+i, nil))
			default:
				o = makeValue(d)
			}
			for _, p := range parts(o) {
				if err := add(p); err != nil {
					return err
				}
			}
		}
		used := map[string]bool{}
		for i, k := range c.Calls {
			x.steps++
			if k.Op >= 134 {
				o, err := packageCall(k.Op, k.Args, pool)
				if err == nil && o != nil {
					err = add(o)
				}
				if err != nil {
					return fmt.Errorf("call %d: %w", i+1, err)
				}
				x.Class("functions of the package")
				continue
			}
			o := pool[k.Obj%len(pool)]
			names := funcFields(o)
			name := names[k.Op%len(names)]
			f, _ := op(o, name)
			var args []reflect.Value
			for j := 0; j < f.Type().NumIn(); j++ {
				args = append(args, argument(f.Type().In(j), k.Args[j%len(k.Args)], o, pool))
			}
			x.Class(fmt.Sprintf("%T.%s", o, name))
			used[name] = true
			out, err := callAny(o, name, args)
			if err != nil {
				return fmt.Errorf("call %d: %w", i+1, err)
			}
			for _, r := range out {
				if err := addResult(r, add); err != nil {
					return fmt.Errorf("call %d, a result of %T.%s: %w", i+1, o, name, err)
				}
			}
		}
		for i := 0; i < len(pool) && i < 7; i++ {
			o := pool[(i*7+len(c.Calls))%len(pool)]
			for j, name := range funcFields(o) {
				if !isRead(name) {
					continue
				}
				f, _ := op(o, name)
				var args []reflect.Value
				for k := 0; k < f.Type().NumIn(); k++ {
					args = append(args, argument(f.Type().In(k), c.Calls[0].Args[0]+i*3+j*11+k, o, pool))
				}
				if _, err := callAny(o, name, args); err != nil {
					return fmt.Errorf("after all calls: %w", err)
				}
				x.steps++
			}
		}
		x.Nontrivial(len(used) >= 3)
		return nil
	})

// isRead tells the reads, predicates, copies and serialisations by their names.
func isRead(name string) bool {
	return strings.HasPrefix(name, "Get") || strings.HasPrefix(name, "Is") || strings.HasPrefix(name, "Has") ||
		name == "Len" || name == "Values" || name == "Clone" || name == "ToJSONString"
}

// addResult hands the maps, arrays and values of a result on.
func addResult(r reflect.Value, add func(any) error) error {
	switch v := r.Interface().(type) {
	case *json.Map, *json.Array, *json.Value:
		return add(v)
	case json.Map:
		return add(&v)
	case json.Array:
		return add(&v)
	case json.Value:
		return add(&v)
	case *[]*json.Value:
		if v != nil {
			for _, e := range *v {
				if err := add(e); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// ---- C22: calls succeed or fail cleanly, and reads change nothing

type cleanCase struct {
	Doc    *N    `json:"doc"`
	Parsed bool  `json:"parsed"`
	Odd    []int `json:"odd"`
	Probe  []Bin `json:"probe"`
	Salt   int   `json:"salt"`
}

// cleanResult checks the results of one call; has tells that there is something other than null to read.
func cleanResult(what func() string, out []reflect.Value, has bool, x *Ctx) error {
	if len(out) == 0 {
		return nil
	}
	last := out[len(out)-1]
	if ty := last.Type(); ty != reflect.TypeOf([]error{}) && ty != reflect.TypeOf((*error)(nil)).Elem() {
		return nil
	}
	var failed bool
	switch e := last.Interface().(type) {
	case []error:
		for _, k := range e {
			if k == nil {
				return fmt.Errorf("%s reports an error that is nil", what())
			}
			if k.Error() == "" {
				x.Class("error without text")
			}
		}
		failed = len(e) > 0
	case error:
		failed = e != nil
	}
	if len(out) < 2 {
		return nil
	}
	r := out[0]
	if !failed {
		x.Class("success")
		if has && r.Kind() == reflect.Ptr && r.IsNil() {
			return fmt.Errorf("%s reports no error and gives nothing", what())
		}
		return nil
	}
	x.Class("failure")
	switch r.Kind() {
	case reflect.Ptr, reflect.Slice:
		if !r.IsNil() {
			return fmt.Errorf("%s reports %v and still gives a result", what(), last.Interface())
		}
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		if !r.IsZero() {
			return fmt.Errorf("%s reports %v and still gives %v", what(), last.Interface(), r.Interface())
		}
	}
	return nil
}

// plainResult tells that a result is a list, or a pointer to a list or a scalar, that belongs to whoever asked for it.
func plainResult(r reflect.Value) bool {
	switch r.Kind() {
	case reflect.Slice:
		return r.Len() > 0
	case reflect.Ptr:
		if r.IsNil() {
			return false
		}
		k := r.Elem().Kind()
		return k == reflect.Slice && r.Elem().Len() > 0 || k >= reflect.Bool && k <= reflect.Float64 && k != reflect.Uintptr || k == reflect.String || r.Type() == reflect.TypeOf((*time.Time)(nil))
	}
	return false
}

// nullWord tells that a value is the text that unsigned reads take for null.
func nullWord(v *json.Value) bool {
	s, e := v.GetStringValue()
	return len(e) == 0 && strings.EqualFold(s, "NULL")
}

var _ = register(Prop{ID: "C22", Quick: 1600, Thor: 64000,
	Rule:   "a document of any content, built or parsed, numbers that JSON cannot express and values of types the package does not know among it; on the document, and on every map, array and value in it, every read, predicate, clone and serialisation (all found by reflection, every name and index in and out of range, several decimals) and the changes that must fail; each result judged by its shape, and the whole document and its text compared with before after the reads of every part, and the lists and pointers that reads gave compared with what they were when given at the end; non-trivial: there were both successes and failures and the document holds at least three nodes",
	Assume: []string{"maps, arrays, texts and times returned by value next to errors are not judged", "a text spelled NULL read as an unsigned number gives neither a number nor an error"}},
	func(t *rapid.T) cleanCase {
		c := cleanCase{Doc: genMap(t, treeOpt{depth: 2, width: 3, times: true, errs: true, nonFinite: true}), Parsed: chance(t, 1, 4), Salt: pick(t, 1000)}
		if c.Parsed {
			c.Doc = genMap(t, treeOpt{depth: 2, width: 3})
		} else if chance(t, 1, 15) {
			c.Doc = genDoc(t, treeOpt{depth: 1, width: 2, times: true, errs: true, nonFinite: true, bulk: 40, chain: 20})
		} else if chance(t, 1, 15) {
			c.Doc.set("bulk", genBulk(t, treeOpt{times: true, errs: true, nonFinite: true, bulk: 40}, "map", "array"))
		}
		for i, n := 0, pick(t, 3); i < n; i++ {
			c.Odd = append(c.Odd, pick(t, 3000))
		}
		c.Probe = []Bin{Bin(genKey(t)), "absent key"}
		if chance(t, 1, 6) { // several longer texts
			for i, n := 0, between(t, 2, 5); i < n; i++ {
				c.Doc.set("long "+strconv.Itoa(i), &N{K: "string", S: Bin(genWord(t, 10, 100)), V: pick(t, 8)})
			}
		}
		return c
	},
	func(c cleanCase, x *Ctx) error {
		classesOf(x, c.Doc)
		root := buildMap(c.Doc)
		if c.Parsed {
			text, e := toJSON(root)
			if len(e) > 0 {
				return fmt.Errorf("%s is not serialised: %s", clip(c.Doc.String()), errText(e))
			}
			var err error
			if root, err = parse(text); err != nil {
				return err
			}
		}
		for i, o := range c.Odd {
			root.SetObjectForMap(fmt.Sprintf("odd %d", i), anything(o, nil))
		}
		see := func() string {
			s, e := toJSON(root)
			return dump(root) + "\n" + s + "\n" + errText(e)
		}
		before := see()
		same := func(after string) error {
			if now := see(); now != before {
				return fmt.Errorf("after %s the document %s is %s", after, clip(before), clip(now))
			}
			return nil
		}
		type kept struct {
			what, text string
			v          reflect.Value
		}
		var results []kept
		still := func() error { // later reads leave the results of earlier ones alone
			for _, k := range results {
				if now := render(k.v); now != k.text {
					return fmt.Errorf("%s gave %s, which after further reads is %s", k.what, clip(k.text), clip(now))
				}
			}
			return nil
		}
		all := parts(root)
		if len(all) > 18 {
			i := c.Salt % (len(all) - 14)
			all = append(append([]any{}, all[:4]...), all[i:i+14]...)
		}
		for _, o := range all {
			type argList struct {
				args []any
				has  bool
				null bool // the unsigned reads of a text spelled NULL
			}
			var byKey []argList
			byIndex := []argList{}
			whole := argList{has: true}
			switch v := o.(type) {
			case *json.Map:
				keys := v.GetKeys()
				if len(keys) > 8 {
					keys = append(keys[:4:4], keys[len(keys)-4:]...)
				}
				for _, k := range keys {
					w := v.GetValue(k)
					byKey = append(byKey, argList{[]any{k}, w != nil && !w.IsNil(), w != nil && nullWord(w)})
				}
				for _, k := range c.Probe {
					if !v.HasKey(string(k)) {
						byKey = append(byKey, argList{[]any{string(k)}, false, false})
					}
				}
			case *json.Array:
				for i := -1; i <= v.Len(); i++ {
					has := i >= 0 && i < v.Len() && !(*v.GetValues())[i].IsNil()
					byIndex = append(byIndex, argList{[]any{i}, has, false})
				}
			case *json.Value:
				whole.has, whole.null = !v.IsNil(), nullWord(v)
			}
			for _, name := range funcFields(o) {
				if !isRead(name) {
					continue
				}
				f, _ := op(o, name)
				ty := f.Type()
				var calls []argList
				switch {
				case ty.NumIn() == 0:
					calls = []argList{whole}
				case ty.In(0).Kind() == reflect.String && reflect.TypeOf(o) == reflect.TypeOf((*json.Map)(nil)):
					for _, k := range byKey {
						if ty.NumIn() == 2 {
							k.args = append(k.args[:1:1], c.Salt%11)
						}
						calls = append(calls, k)
					}
				case ty.In(0).Kind() == reflect.Int && reflect.TypeOf(o) == reflect.TypeOf((*json.Array)(nil)):
					calls = byIndex
				default:
					for i := 0; i < 2; i++ {
						calls = append(calls, argList{args: []any{argument(ty.In(0), c.Salt+i*13, o, nil).Interface()}, has: whole.has})
					}
				}
				for _, k := range calls {
					var args []reflect.Value
					for j, a := range k.args {
						if a == nil {
							args = append(args, reflect.Zero(ty.In(j)))
						} else {
							args = append(args, reflect.ValueOf(a))
						}
					}
					what := func() string { return fmt.Sprintf("%T.%s(%s)", o, name, showArgs(args)) }
					out, err := callAny(o, name, args)
					if err != nil {
						return err
					}
					x.steps++
					has := k.has && !(k.null && strings.HasPrefix(name, "GetUInt"))
					if err := cleanResult(what, out, has, x); err != nil {
						return fmt.Errorf("%w on %s", err, clip(dump(o)))
					}
					if len(out) > 0 && len(results) < 3000 && plainResult(out[0]) {
						results = append(results, kept{what(), render(out[0]), out[0]})
					}
				}
			}
			if err := same(fmt.Sprintf("the reads of %T %s", o, clip(dump(o)))); err != nil {
				return err
			}
			// changes that must fail
			switch v := o.(type) {
			case *json.Map:
				for _, k := range c.Probe {
					if !v.HasKey(string(k)) {
						if ok, err := v.RemoveKey(string(k)); ok || err == nil {
							return fmt.Errorf("removing the absent name %q from %s gives %v, %v", string(k), clip(dump(o)), ok, err)
						}
					}
				}
			case *json.Array:
				n := v.Len()
				for _, i := range []int{-1, n, n + 1 + c.Salt%50, -1 << 63, 1<<63 - 1} {
					if ok, err := v.RemoveValueAtIndex(i); ok || err == nil {
						return fmt.Errorf("removing at index %d from %s gives %v, %v", i, clip(dump(o)), ok, err)
					}
					w := json.NewValue(nil)
					w.SetStringValue("not to be stored")
					if ok, err := v.SetValueAtIndex(i, w); ok || err == nil {
						return fmt.Errorf("setting at index %d of %s gives %v, %v", i, clip(dump(o)), ok, err)
					}
				}
			}
			if err := same(fmt.Sprintf("failed changes of %T", o)); err != nil {
				return err
			}
			if _, isValue := o.(*json.Value); !isValue {
				for _, form := range []int{0, 1} {
					var b *strings.Builder
					if form == 1 {
						b = &strings.Builder{}
					}
					for i, e := range [][]error{json.ConvertInterfaceValueToJSONStringValue(b, o), second(json.ConvertInterfaceValueToStringValue(o))} {
						for _, k := range e {
							if k == nil {
								return fmt.Errorf("conversion %d of %s reports an error that is nil", i, clip(dump(o)))
							}
						}
					}
				}
			}
		}
		if err := same("conversions"); err != nil {
			return err
		}
		if err := still(); err != nil {
			return err
		}
		x.Nontrivial(x.classes["success"] && x.classes["failure"] && c.Doc.size() >= 3)
		return nil
	})

func second(_ string, e []error) []error { return e }
