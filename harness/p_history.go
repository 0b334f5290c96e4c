package main

import (
	"fmt"
	"math"
	"strconv"

	"pgregory.net/rapid"

	"github.com/matehaxor03/holistic_json/json"
)

// ---- C08: a map is an insertion ordered dictionary

type mapOp struct {
	Op  string `json:"op"`
	Key int    `json:"key"`
	Val *N     `json:"val,omitempty"`
	H   int    `json:"h,omitempty"`
	// how often, of the operations that are many: fill, drain and spin
	Many int `json:"many,omitempty"`
}

// howMany are the lengths of long histories and the sizes that large containers grow to.
var howMany = []int{20, 40, 70, 70, 130, 130, 260, 260, 300, 520, 520, 1030, 1030, 2060}

// bulkValue is what the i-th member of a filled container holds.
func bulkValue(i int) *N {
	switch s := strconv.Itoa(i); i % 5 {
	case 0, 1:
		return &N{K: "int", S: Bin(s), V: i}
	case 2:
		return &N{K: "null"}
	case 3:
		return &N{K: "map", Keys: []Bin{Bin(s)}, Kids: []*N{{K: "bool", S: "true"}}}
	default:
		return &N{K: "string", S: Bin("v" + s), V: i}
	}
}

// drained is which of n places the i-th removal of a drain takes.
func drained(mode, i, n int) int {
	return []int{0, n - 1, n / 2, i * 7919 % n, min(i, n-1), max(n-2, 0)}[mode%6]
}

type mapCase struct {
	Start int     `json:"start"`
	Init  *N      `json:"init"`
	Keys  []Bin   `json:"keys"`
	Ops   []mapOp `json:"ops"`
}

var mapStarts = []string{"NewMap", "NewMapValue", "parsed", "cloned", "NewMapOfValues", "nested map", "built"}

func genMapCase(t *rapid.T) mapCase {
	c := mapCase{Start: pick(t, len(mapStarts)), Init: genMap(t, treeOpt{depth: 1, width: 4, times: true, errs: true})}
	for i, n := 0, between(t, 2, 7); i < n; i++ {
		c.Keys = append(c.Keys, Bin(genKey(t)))
	}
	most := 24
	if chance(t, 1, 6) {
		c.Init = genBulk(t, treeOpt{times: true, errs: true, bulk: oneOf(t, 20, 20, 50, 150)}, "map")
		c.Start = between(t, 2, len(mapStarts)-1)
		for i, n := 0, between(t, 2, 12); i < n; i++ {
			c.Keys = append(c.Keys, c.Init.Keys[pick(t, len(c.Init.Keys))])
		}
		c.Keys = append(c.Keys, c.Init.Keys[len(c.Init.Keys)-1], c.Init.Keys[0])
		c.Keys = c.Keys[:len(c.Keys):len(c.Keys)]
		most = oneOf(t, 24, 60)
	} else {
		for _, k := range c.Init.Keys {
			if bit.Draw(t, "") {
				c.Keys = append(c.Keys, k)
			}
		}
		if chance(t, 1, 12) {
			for i := 0; i < 30; i++ {
				c.Keys = append(c.Keys, Bin("k"+strconv.Itoa(i)))
			}
			most = 150
		}
	}
	small := treeOpt{depth: 1, width: 2, times: true, errs: true}
	if most == 24 && chance(t, 1, 20) { // long: many operations of the same kind
		most, small.depth = 7, 0
		for i, n := 0, between(t, 1, 5); i < n; i++ {
			o := mapOp{Op: oneOf(t, "fill", "fill", "drain", "spin"), Key: pick(t, 60), H: pick(t, 4), Many: oneOf(t, howMany...)}
			if i == 0 {
				o.Op = oneOf(t, "fill", "fill", "spin")
			}
			c.Ops = append(c.Ops, o)
			for j, n := 0, pick(t, 3); j < n; j++ {
				c.Ops = append(c.Ops, mapOp{Op: oneOf(t, "set", "remove", "keep names", "change value"), Key: pick(t, 200), H: pick(t, 4), Val: genScalar(t, small)})
			}
		}
		for i, n := 0, between(t, 1, 8); i < n; i++ {
			c.Keys = append(c.Keys, Bin("m"+strconv.Itoa(oneOf(t, 0, 1, pick(t, 2060), pick(t, 100), 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048))))
		}
	} else if most == 24 && chance(t, 1, 10) { // grows and shrinks in waves
		first := len(c.Keys)
		for i := 0; i < 70; i++ {
			c.Keys = append(c.Keys, Bin("w"+strconv.Itoa(i)))
		}
		var live []int
		small.depth = 0
		for w := between(t, 1, 3); w > 0; w-- {
			up := oneOf(t, 3, 9, 18, 20, 34, 40, 70)
			for i := first; i < len(c.Keys) && len(live) < up; i++ {
				if indexOf(live, i) < 0 {
					c.Ops = append(c.Ops, mapOp{Op: "set", Key: i, Val: genScalar(t, small), H: pick(t, 4)})
					live = append(live, i)
				}
			}
			end := pick(t, 4)
			for down := oneOf(t, 0, 0, 1, 2, 5); len(live) > down; {
				n := len(live)
				i := []int{0, n - 1, pick(t, n), n / 2}[end]
				o := mapOp{Op: "remove", Key: live[i], H: pick(t, 4)}
				if chance(t, 1, 12) {
					o.Op, o.Val = "set", genScalar(t, small)
				} else {
					live = append(append([]int{}, live[:i]...), live[i+1:]...)
				}
				c.Ops = append(c.Ops, o)
			}
		}
		return c
	}
	if most > 60 {
		small.depth = 0
	}
	for i, n := 0, between(t, max(1, most-59), most); i < n; i++ {
		o := mapOp{Key: pick(t, len(c.Keys)), H: pick(t, 4)}
		switch pick(t, 16) {
		case 0, 1, 2, 3, 4, 5:
			o.Op, o.Val = "set", genNode(t, small)
		case 6:
			o.Op = "set null"
		case 7, 8, 9, 10:
			o.Op = "remove"
		case 11:
			o.Op = "remove absent"
		case 12:
			o.Op, o.Val = "change value", genScalar(t, small)
		case 13:
			o.Op = "keep names"
		case 14:
			o.Op = "copy handle"
		default:
			o.Op = "serialise"
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func indexOf(l []int, v int) int {
	for i, w := range l {
		if w == v {
			return i
		}
	}
	return -1
}

// startMap makes a map in one of the ways a map comes into being, and its model.
func startMap(start int, init *N) (*json.Map, *N, error) {
	switch mapStarts[start] {
	case "NewMap":
		return json.NewMap(), &N{K: "map"}, nil
	case "NewMapValue":
		m := json.NewMapValue()
		return &m, &N{K: "map"}, nil
	case "parsed":
		text, e := toJSON(buildMap(init))
		if len(e) > 0 {
			return nil, nil, fmt.Errorf("%s is not serialised: %s", clip(init.String()), errText(e))
		}
		m, err := parse(text)
		return m, normal(init), err
	case "cloned":
		m, e := buildMap(init).Clone()
		if len(e) > 0 || m == nil {
			return nil, nil, fmt.Errorf("%s is not cloned: %s", clip(init.String()), errText(e))
		}
		return m, init.clone(), nil
	case "NewMapOfValues":
		g := map[string]any{}
		for i, k := range init.Keys {
			g[string(k)] = nativeElem(init.Kids[i], init.V+i)
		}
		m := json.NewMapOfValues(&g)
		model := &N{K: "map"}
		for _, k := range m.GetKeys() {
			i := init.find(k)
			if i < 0 {
				return nil, nil, fmt.Errorf("a map made of %s has the name %q", clip(init.String()), k)
			}
			model.set(k, init.Kids[i])
		}
		return m, model, nil
	case "nested map":
		p := json.NewMap()
		setMember(p, "inner", init)
		m, e := p.GetMap("inner")
		if len(e) > 0 || m == nil {
			return nil, nil, fmt.Errorf("no nested map: %s", errText(e))
		}
		return m, init.clone(), nil
	}
	return buildMap(init), init.clone(), nil
}

func sameText(obj any, model *N, what string) error {
	text, e := toJSON(obj)
	if len(e) > 0 {
		return fmt.Errorf("%s: %s is not serialised: %s", what, clip(model.String()), errText(e))
	}
	r, err := readJSON(text)
	if err == nil {
		err = sameMeaning(r, model, what)
	}
	if err != nil {
		return fmt.Errorf("%s: %s is serialised to %s: %v", what, clip(model.String()), quote(text), err)
	}
	return nil
}

var _ = register(Prop{ID: "C08", Quick: 5000, Thor: 200000, After: []string{"index", "bulk"},
	Rule:   "a map (new, by value, parsed, cloned, nested, made of a Go map, built) and one to 24 operations over two to eleven names: set by a random typed operation, set null, remove, remove of an absent name, change of the value in place, through any of several copies of the handle; after every operation the whole map, its names and its list of values are compared with an ordered dictionary; non-trivial: at least one removal of a present name or overwrite, and three operations",
	Assume: []string{"the list that Values returns is only read: changing it from outside is not an operation of the map"}},
	genMapCase,
	func(c mapCase, x *Ctx) error {
		m, model, err := startMap(c.Start, c.Init)
		if err != nil {
			return err
		}
		x.Class("start: " + mapStarts[c.Start])
		handles := []*json.Map{m}
		taken := m.Values() // once, it goes on showing the values
		type held struct{ got, want []string }
		var kept []held
		effects := 0
		for i, o := range c.Ops {
			h := handles[o.H%len(handles)]
			key := string(c.Keys[o.Key%len(c.Keys)])
			at := model.find(key)
			what := fmt.Sprintf("after operation %d (%s %q)", i+1, o.Op, key)
			x.steps++
			if i%5 == 2 && len(c.Ops) < 100 { // nothing of this may show
				x.Upset()
				h.Clone()
			}
			x.Class(o.Op)
			switch o.Op {
			case "set":
				if at >= 0 {
					effects++
					x.Class("overwrite")
				}
				setMember(h, key, o.Val)
				model.set(key, o.Val)
			case "set null":
				h.SetNil(key)
				model.set(key, &N{K: "null"})
			case "remove", "remove absent":
				if o.Op == "remove absent" {
					for model.find(key) >= 0 {
						key += "?"
					}
					at = -1
				}
				ok, err := h.RemoveKey(key)
				if at >= 0 {
					effects++
					x.Class("removal of a present name")
				}
				if ok != (at >= 0) || (err == nil) != (at >= 0) {
					return fmt.Errorf("%s: RemoveKey gives %v, %v on %s", what, ok, err, clip(model.String()))
				}
				model.remove(key)
			case "change value":
				if at < 0 {
					continue
				}
				v := h.GetValue(key)
				if v == nil {
					return fmt.Errorf("%s: no value", what)
				}
				v.SetObject(makeValue(o.Val).GetObject())
				model.Kids[at] = o.Val
			case "fill":
				for j := 0; j < o.Many; j++ {
					k, v := "m"+strconv.Itoa(j), bulkValue(j+o.Key)
					setMember(h, k, v)
					model.set(k, v)
				}
			case "drain":
				for j := 0; j < o.Many && len(model.Keys) > 0; j++ {
					k := string(model.Keys[drained(o.Key, j, len(model.Keys))])
					if ok, err := h.RemoveKey(k); !ok || err != nil {
						return fmt.Errorf("%s: RemoveKey(%q) gives %v, %v", what, k, ok, err)
					}
					model.remove(k)
					effects++
				}
			case "spin":
				for j := 0; j < o.Many; j++ {
					if (j+o.H)&1 == 0 || o.Key%3 == 0 {
						v := bulkValue(j)
						setMember(h, key, v)
						model.set(key, v)
					} else {
						at, had := model.find(key), h.HasKey(key)
						ok, err := h.RemoveKey(key)
						if ok != (at >= 0) || (err == nil) != (at >= 0) || had != (at >= 0) {
							return fmt.Errorf("%s: RemoveKey gives %v, %v, HasKey before it %v", what, ok, err, had)
						}
						model.remove(key)
					}
				}
				effects++
			case "keep names":
				k := h.GetKeys()
				kept = append(kept, held{k, append([]string{}, k...)})
			case "copy handle":
				w := *h
				handles = append(handles, &w)
			case "serialise":
				if err := sameText(h, model, what); err != nil {
					return err
				}
			}
			large := len(model.Keys) > 200
			for j, g := range []*json.Map{h, handles[(o.H+1)%len(handles)]} {
				if large && j == 1 && g == h {
					continue
				}
				if err := cmpMap(g, model, what, false); err != nil {
					return err
				}
				if v := g.Values(); v == nil || v.Len() != len(model.Keys) {
					return fmt.Errorf("%s: the list of values does not have %d values", what, len(model.Keys))
				} else if err := cmpArray(v, &N{K: "array", Kids: model.Kids}, what+", its values", false); err != nil {
					return err
				}
			}
			if !large || i == len(c.Ops)-1 {
				if err := cmpArray(taken, &N{K: "array", Kids: model.Kids}, what+", the list of values taken at the start", false); err != nil {
					return err
				}
			}
			for _, k := range c.Keys {
				if m.HasKey(string(k)) != (model.find(string(k)) >= 0) || (m.GetValue(string(k)) != nil) != (model.find(string(k)) >= 0) {
					return fmt.Errorf("%s: HasKey(%q) is %v, and there is a value: %v", what, string(k), m.HasKey(string(k)), m.GetValue(string(k)) != nil)
				}
			}
		}
		for _, k := range kept {
			for i := range k.want {
				if k.got[i] != k.want[i] {
					return fmt.Errorf("a list of names handed out as %q is now %q", k.want, k.got)
				}
			}
		}
		x.Nontrivial(effects > 0 && len(c.Ops) >= 3)
		return sameText(m, model, "at the end")
	})

// ---- C09: an array is a list

type arrOp struct {
	Op  string `json:"op"`
	I   int    `json:"i"`
	Val *N     `json:"val,omitempty"`
	H   int    `json:"h,omitempty"`
	// how often, of the operations that are many: fill, drain and spin
	Many int `json:"many,omitempty"`
}

type arrCase struct {
	Start int     `json:"start"`
	Init  *N      `json:"init"`
	Ops   []arrOp `json:"ops"`
}

var arrStarts = []string{"NewArray", "NewArrayValue", "parsed", "cloned", "NewArrayOfValues", "nested array", "built", "values of a map"}

func startArray(start int, init *N) (*json.Array, *N, error) {
	switch arrStarts[start] {
	case "NewArray":
		return json.NewArray(), &N{K: "array"}, nil
	case "NewArrayValue":
		a := json.NewArrayValue()
		return &a, &N{K: "array"}, nil
	case "parsed":
		text, e := toJSON(buildArray(init))
		if len(e) > 0 {
			return nil, nil, fmt.Errorf("%s is not serialised: %s", clip(init.String()), errText(e))
		}
		m, err := parse("{\"a\":" + text + "}")
		if err != nil {
			return nil, nil, err
		}
		a, e := m.GetArray("a")
		if len(e) > 0 || a == nil {
			return nil, nil, fmt.Errorf("no parsed array: %s", errText(e))
		}
		return a, normal(init), nil
	case "cloned":
		a, e := buildArray(init).Clone()
		if len(e) > 0 || a == nil {
			return nil, nil, fmt.Errorf("%s is not cloned: %s", clip(init.String()), errText(e))
		}
		return a, init.clone(), nil
	case "NewArrayOfValues":
		var l []any
		for i, n := range init.Kids {
			l = append(l, nativeElem(n, init.V+i))
		}
		return json.NewArrayOfValues(&l), init.clone(), nil
	case "nested array":
		p := json.NewArray()
		appendTo(p, init)
		a, e := (*p.GetValues())[0].GetArray()
		if len(e) > 0 || a == nil {
			return nil, nil, fmt.Errorf("no nested array: %s", errText(e))
		}
		return a, init.clone(), nil
	case "values of a map":
		m := json.NewMap()
		for i, n := range init.Kids {
			setMember(m, strconv.Itoa(i), n)
		}
		return m.Values(), init.clone(), nil
	}
	return buildArray(init), init.clone(), nil
}

var _ = register(Prop{ID: "C09", Quick: 5000, Thor: 200000, After: []string{"index", "set"},
	Rule: "an array (new, by value, parsed, cloned, nested, made of a Go list, built, the values of a map) and one to 24 operations: append by a random typed operation, replace, remove and read by index (inside, at the edges, far outside), change of an element in place, through any of several copies of the handle; after every operation the whole array is compared with a list; non-trivial: at least one replacement or removal inside and one index outside"},
	func(t *rapid.T) arrCase {
		small := treeOpt{depth: 1, width: 2, times: true, errs: true}
		c := arrCase{Start: pick(t, len(arrStarts)), Init: genArray(t, treeOpt{depth: 1, width: 4, times: true, errs: true})}
		most, high := 24, 9
		switch {
		case chance(t, 1, 6):
			c.Init = genBulk(t, treeOpt{times: true, errs: true, bulk: oneOf(t, 20, 20, 50, 150)}, "array")
			c.Start = between(t, 2, len(arrStarts)-1)
			high = len(c.Init.Kids) + 2
			most = oneOf(t, 24, 60)
		case chance(t, 1, 12):
			most, high, small.depth = 150, 50, 0
		case chance(t, 1, 16): // long: many operations of the same kind
			most, high, small.depth = 7, oneOf(t, 9, 130, 260, 1030), 0
			for i, n := 0, between(t, 1, 5); i < n; i++ {
				o := arrOp{Op: oneOf(t, "fill", "fill", "drain", "spin"), I: pick(t, 60), H: pick(t, 4), Many: oneOf(t, howMany...)}
				if i == 0 {
					o.Op = "fill"
				}
				c.Ops = append(c.Ops, o)
				for j, n := 0, pick(t, 3); j < n; j++ {
					c.Ops = append(c.Ops, arrOp{Op: oneOf(t, "append", "remove", "replace", "change element"), I: between(t, 0, high), H: pick(t, 4), Val: genScalar(t, small)})
				}
			}
		case chance(t, 1, 10): // grows and shrinks in waves
			n := 0
			if c.Start > 1 {
				n = len(c.Init.Kids)
			}
			for w := between(t, 1, 3); w > 0; w-- {
				for up := oneOf(t, 3, 9, 18, 20, 34, 40, 70); n < up; n++ {
					c.Ops = append(c.Ops, arrOp{Op: "append", Val: genScalar(t, small), H: pick(t, 4)})
				}
				end := pick(t, 4)
				for down := oneOf(t, 0, 0, 1, 2, 5); n > down; n-- {
					o := arrOp{Op: "remove", I: []int{0, n - 1, pick(t, n), n / 2}[end], H: pick(t, 4)}
					if chance(t, 1, 12) {
						o.Op, o.Val = "replace", genScalar(t, small)
						n++
					}
					c.Ops = append(c.Ops, o)
				}
			}
			return c
		}
		for i, n := 0, between(t, max(1, most-59), most); i < n; i++ {
			o := arrOp{I: between(t, -2, high), H: pick(t, 4)}
			if chance(t, 1, 20) {
				o.I = oneOf(t, math.MaxInt, math.MinInt, math.MaxInt32, 1<<40, 1000, -1000)
			}
			switch pick(t, 14) {
			case 0, 1, 2, 3, 4:
				o.Op, o.Val = "append", genNode(t, small)
			case 5, 6:
				o.Op, o.Val = "replace", genNode(t, small)
			case 7, 8, 9:
				o.Op = "remove"
			case 10:
				o.Op = "read"
			case 11:
				o.Op, o.Val = "change element", genScalar(t, small)
			case 12:
				o.Op = oneOf(t, "copy handle", "append the same", "replace by the same")
			default:
				o.Op = "serialise"
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	},
	func(c arrCase, x *Ctx) error {
		a, model, err := startArray(c.Start, c.Init)
		if err != nil {
			return err
		}
		x.Class("start: " + arrStarts[c.Start])
		if err := cmpArray(a, model, "at the start", false); err != nil {
			return err
		}
		handles := []*json.Array{a}
		list := a.GetValues() // taken once, it goes on showing the elements
		inside, outside := false, false
		var cells []int // which value is in each place
		for range model.Kids {
			cells = append(cells, len(cells))
		}
		most := len(cells)
		cell := func() int { most++; return most }
		for i, o := range c.Ops {
			h := handles[o.H%len(handles)]
			ok := o.I >= 0 && o.I < len(model.Kids)
			what := fmt.Sprintf("after operation %d (%s, index %d of %d)", i+1, o.Op, o.I, len(model.Kids))
			x.steps++
			if i%5 == 2 && len(c.Ops) < 100 { // nothing of this may show
				x.Upset()
				h.Clone()
			}
			x.Class(o.Op)
			changed := func(did bool, err error) error {
				inside = inside || ok
				outside = outside || !ok
				x.ClassIf(!ok, o.Op+" outside")
				if did != ok || (err == nil) != ok {
					return fmt.Errorf("%s: gives %v, %v", what, did, err)
				}
				return nil
			}
			switch o.Op {
			case "append":
				appendTo(h, o.Val)
				model.Kids = append(model.Kids, o.Val)
				cells = append(cells, cell())
			case "fill":
				for j := 0; j < o.Many; j++ {
					v := bulkValue(j + o.I)
					appendTo(h, v)
					model.Kids = append(model.Kids, v)
					cells = append(cells, cell())
				}
			case "drain":
				model.Kids = append([]*N{}, model.Kids...)
				for j := 0; j < o.Many && len(model.Kids) > 0; j++ {
					k := drained(o.I, j, len(model.Kids))
					if did, err := h.RemoveValueAtIndex(k); !did || err != nil {
						return fmt.Errorf("%s: removal at %d of %d gives %v, %v", what, k, len(model.Kids), did, err)
					}
					model.Kids = append(model.Kids[:k], model.Kids[k+1:]...)
					cells = append(cells[:k], cells[k+1:]...)
				}
				inside = true
			case "spin":
				model.Kids = append([]*N{}, model.Kids...)
				for j := 0; j < o.Many; j++ {
					n := len(model.Kids)
					v := bulkValue(j)
					switch {
					case n == 0 || o.I%3 == 0 && j&1 == 0:
						appendTo(h, v)
						model.Kids = append(model.Kids, v)
						cells = append(cells, cell())
						continue
					case o.I%3 == 0:
						k := drained(o.I/3, j, n)
						if did, err := h.RemoveValueAtIndex(k); !did || err != nil {
							return fmt.Errorf("%s: removal at %d of %d gives %v, %v", what, k, n, did, err)
						}
						model.Kids = append(model.Kids[:k], model.Kids[k+1:]...)
						cells = append(cells[:k], cells[k+1:]...)
					default:
						k := drained(o.I/3, j, n)
						if did, err := h.SetValueAtIndex(k, makeValue(v)); !did || err != nil {
							return fmt.Errorf("%s: replacement at %d of %d gives %v, %v", what, k, n, did, err)
						}
						model.Kids[k], cells[k] = v, cell()
					}
				}
			case "append the same":
				if !ok {
					continue
				}
				if v := (*h.GetValues())[o.I]; o.H&1 == 0 || v == nil {
					h.AppendValue(v)
				} else {
					h.AppendValueValue(*v)
				}
				model.Kids = append(model.Kids, model.Kids[o.I])
				cells = append(cells, cells[o.I])
			case "replace by the same":
				if !ok {
					continue
				}
				j := (o.I + o.H) % len(cells)
				if did, err := h.SetValueAtIndex(j, (*h.GetValues())[o.I]); !did || err != nil {
					return fmt.Errorf("%s: gives %v, %v", what, did, err)
				}
				model.Kids = append([]*N{}, model.Kids...)
				model.Kids[j], cells[j] = model.Kids[o.I], cells[o.I]
			case "replace":
				if err := changed(h.SetValueAtIndex(o.I, makeValue(o.Val))); err != nil {
					return err
				}
				if ok {
					model.Kids[o.I] = o.Val
					cells[o.I] = cell()
				}
			case "remove":
				if err := changed(h.RemoveValueAtIndex(o.I)); err != nil {
					return err
				}
				if ok {
					cells = append(append([]int{}, cells[:o.I]...), cells[o.I+1:]...)
					model.Kids = append(append([]*N{}, model.Kids[:o.I]...), model.Kids[o.I+1:]...)
				}
			case "read":
				outside = outside || !ok
				s, e := h.GetStringValue(o.I)
				if ok && model.Kids[o.I].K == "string" {
					if len(e) > 0 || s != string(model.Kids[o.I].S) {
						return fmt.Errorf("%s: GetStringValue gives %s, errors %s", what, quote(s), errText(e))
					}
				} else if len(e) == 0 {
					return fmt.Errorf("%s: GetStringValue gives %s and no error", what, quote(s))
				}
				m, e := h.GetMap(o.I)
				switch {
				case ok && model.Kids[o.I].K == "map":
					if len(e) > 0 || m == nil {
						return fmt.Errorf("%s: GetMap gives a map: %v, errors %s", what, m != nil, errText(e))
					}
					if err := cmpMap(m, model.Kids[o.I], what, false); err != nil {
						return err
					}
				case ok && model.Kids[o.I].K == "null":
				default:
					if len(e) == 0 {
						return fmt.Errorf("%s: GetMap reports no error", what)
					}
				}
			case "change element":
				if !ok {
					continue
				}
				(*h.GetValues())[o.I].SetObject(makeValue(o.Val).GetObject())
				for j, k := range cells {
					if k == cells[o.I] {
						model.Kids[j] = o.Val
					}
				}
			case "copy handle":
				w := *h
				if o.I&1 == 1 {
					w, _ = h.GetArrayValue()
				}
				handles = append(handles, &w)
			case "serialise":
				if err := sameText(h, model, what); err != nil {
					return err
				}
			}
			for j, g := range []*json.Array{h, handles[(o.H+1)%len(handles)]} {
				if len(model.Kids) > 200 && j == 1 && g == h {
					continue
				}
				if err := cmpArray(g, model, what, false); err != nil {
					return err
				}
			}
			now := *h.GetValues()
			if len(*list) != len(now) {
				return fmt.Errorf("%s: the list of elements taken at the start has %d elements, the array %d", what, len(*list), len(now))
			}
			for j, v := range *list {
				if v != now[j] {
					return fmt.Errorf("%s: the list of elements taken at the start shows something else at %d", what, j)
				}
			}
		}
		x.Nontrivial(inside && outside)
		return sameText(a, model, "at the end")
	})

// ---- C10: clones

type cloneMut struct {
	At  int `json:"at"`
	Op  int `json:"op"`
	I   int `json:"i"`
	Val *N  `json:"val"`
}

type cloneCase struct {
	Doc    *N         `json:"doc"`
	Parsed bool       `json:"parsed"`
	Clone  bool       `json:"clone"`
	First  []cloneMut `json:"first"`
	Second []cloneMut `json:"second"`
}

// parts is every map, array and value reachable from an object, itself included.
func parts(obj any) []any {
	out := []any{obj}
	switch v := obj.(type) {
	case *json.Map:
		for _, k := range v.GetKeys() {
			if e := v.GetValue(k); e != nil {
				out = append(out, parts(e)...)
			}
		}
	case *json.Array:
		for _, e := range *v.GetValues() {
			if e != nil {
				out = append(out, parts(e)...)
			}
		}
	case *json.Value:
		if v.IsMap() {
			if m, e := v.GetMap(); len(e) == 0 && m != nil {
				out = append(out, parts(m)...)
			}
		} else if v.IsArray() {
			if a, e := v.GetArray(); len(e) == 0 && a != nil {
				out = append(out, parts(a)...)
			}
		}
	}
	return out
}

// mutate changes one part of a document in some way.
func mutate(obj any, c cloneMut) {
	ps := parts(obj)
	switch v := ps[c.At%len(ps)].(type) {
	case *json.Map:
		keys := v.GetKeys()
		key := "new key"
		if len(keys) > 0 && c.Op != 0 {
			key = keys[c.I%len(keys)]
		}
		switch c.Op {
		case 0, 1, 2:
			setMember(v, key, c.Val)
		case 3:
			v.SetNil(key)
		case 4, 5:
			v.RemoveKey(key)
		default:
			poke(v, key, c.I)
		}
	case *json.Array:
		n := v.Len()
		i := 0
		if n > 0 {
			i = c.I % n
		}
		switch c.Op {
		case 0, 1:
			appendTo(v, c.Val)
		case 2, 3:
			v.SetValueAtIndex(i, makeValue(c.Val))
		case 4:
			v.RemoveValueAtIndex(i)
		case 5:
			if l := *v.GetValues(); n > 0 {
				l[i] = makeValue(c.Val)
			}
		default:
			poke(v, "", c.I)
		}
	case *json.Value:
		switch c.Op {
		case 0, 1:
			v.SetObject(makeValue(c.Val).GetObject())
		case 2:
			v.SetStringValue("changed")
		case 3:
			v.SetNil()
		default:
			poke(v, "", c.I)
		}
	}
}

func genMuts(t *rapid.T) []cloneMut {
	var l []cloneMut
	for i, n := 0, between(t, 1, 6); i < n; i++ {
		l = append(l, cloneMut{oneOf(t, pick(t, 40), pick(t, 40), pick(t, 400)), pick(t, 10), pick(t, 20), genNode(t, treeOpt{depth: 1, width: 2, times: true, errs: true})})
	}
	return l
}

var _ = register(Prop{ID: "C10", Quick: 4000, Thor: 160000, After: []string{"clone"},
	Rule:   "a map, array or value of any generated content, built through random operations (values and pointers) or parsed; its clone compared by everything that can be read and by its text; then one to six changes at random parts of one of the two (sets, overwrites, nulls, removals, appends, replacements, and writes through every pointer a read hands out), the other compared with its state before, and the same with the sides exchanged; non-trivial: a change had an effect on the changed side and the document holds at least two nodes",
	Assume: []string{"functions are left out: their clone is a text by design"}},
	func(t *rapid.T) cloneCase {
		c := cloneCase{Clone: bit.Draw(t, ""), First: genMuts(t), Second: genMuts(t)}
		switch pick(t, 5) {
		case 0:
			c.Doc = genScalar(t, treeOpt{times: true, errs: true})
		case 1:
			c.Doc = genArray(t, treeOpt{depth: 2, width: 3, times: true, errs: true})
			if chance(t, 1, 20) {
				c.Doc = genBulk(t, treeOpt{depth: 1, width: 2, times: true, errs: true, bulk: 130}, "array")
			}
		default:
			c.Doc = genDoc(t, treeOpt{depth: 2, width: 3, times: true, errs: true, bulk: 130})
		}
		if chance(t, 1, 40) {
			c.Doc = genBulk(t, treeOpt{depth: 1, width: 2, times: true, errs: true}, "array", "map")
			for _, l := range []*[]cloneMut{&c.First, &c.Second} {
				if len(*l) > 3 {
					*l = (*l)[:3]
				}
				for i := range *l {
					(*l)[i].At = oneOf(t, c.Doc.size()-1, pick(t, c.Doc.size()), pick(t, c.Doc.size()))
				}
			}
		}
		c.Parsed = chance(t, 1, 5) && (c.Doc.K == "map" || c.Doc.K == "array")
		return c
	},
	func(c cloneCase, x *Ctx) error {
		classesOf(x, c.Doc)
		v := makeValue(c.Doc)
		if c.Parsed {
			x.Class("parsed")
			text, e := toJSON(v)
			if len(e) > 0 {
				return fmt.Errorf("%s is not serialised: %s", clip(c.Doc.String()), errText(e))
			}
			m, err := parse("{\"doc\":" + text + "}")
			if err != nil {
				return err
			}
			v = m.GetValue("doc")
		}
		var orig, copy any = v, nil
		before := dump(v)
		text, e := toJSON(v)
		if len(e) > 0 {
			return fmt.Errorf("%s is not serialised: %s", clip(c.Doc.String()), errText(e))
		}
		x.Upset()
		switch {
		case c.Doc.K == "map" && c.Doc.V < 6:
			m, _ := v.GetMap()
			w, err := m.Clone()
			if w != nil {
				orig, copy = m, w
			}
			e = err
		case c.Doc.K == "array" && c.Doc.V < 6:
			a, _ := v.GetArray()
			w, err := a.Clone()
			if w != nil {
				orig, copy = a, w
			}
			e = err
		default:
			w, err := v.Clone()
			if w != nil {
				copy = w
			}
			e = err
		}
		if len(e) > 0 || copy == nil {
			return fmt.Errorf("%s is not cloned: %s", clip(c.Doc.String()), errText(e))
		}
		x.Class(fmt.Sprintf("clone of %T", orig))
		if d := dump(copy); d != before {
			return fmt.Errorf("the clone of %s is %s", clip(before), clip(d))
		}
		if s, e := toJSON(copy); len(e) > 0 || s != text {
			return fmt.Errorf("%s is serialised to %s, its clone to %s %s", clip(before), quote(text), quote(s), errText(e))
		}
		if d := dump(orig); d != before {
			return fmt.Errorf("cloning changes %s to %s", clip(before), clip(d))
		}
		a, b, names := orig, copy, [2]string{"original", "clone"}
		if c.Clone {
			a, b, names = copy, orig, [2]string{"clone", "original"}
		}
		effect := false
		run := func(side, other any, muts []cloneMut, names [2]string) error {
			was := dump(other)
			wasText, _ := toJSON(other)
			start := dump(side)
			for i, m := range muts {
				mutate(side, m)
				x.steps++
				if d := dump(other); d != was {
					return fmt.Errorf("change %d of the %s changes the %s from %s to %s", i+1, names[0], names[1], clip(was), clip(d))
				}
			}
			if s, e := toJSON(other); len(e) > 0 || s != wasText {
				return fmt.Errorf("changing the %s changes the text of the %s from %s to %s %s", names[0], names[1], quote(wasText), quote(s), errText(e))
			}
			effect = effect || dump(side) != start
			return nil
		}
		if err := run(a, b, c.First, names); err != nil {
			return err
		}
		if err := run(b, a, c.Second, [2]string{names[1], names[0]}); err != nil {
			return err
		}
		x.Nontrivial(effect && c.Doc.size() >= 2)
		return nil
	})

// ---- C20: nested containers are live

type liveOp struct {
	Op  string `json:"op"`
	A   int    `json:"a"`
	B   int    `json:"b,omitempty"`
	H   int    `json:"h,omitempty"`
	Key int    `json:"key,omitempty"`
	V   int    `json:"v,omitempty"`
	Val *N     `json:"val,omitempty"`
}

type liveCase struct {
	Docs   []*N     `json:"docs"`
	Parsed []bool   `json:"parsed"`
	Ops    []liveOp `json:"ops"`
}

// cont is a container of the model: its members are scalars or containers, and handles lead to the real one.
type cont struct {
	isMap   bool
	keys    []string
	members []member
	handles []any // *json.Map or *json.Array
}

type member struct {
	n *N
	c *cont
}

func (c *cont) tree() *N {
	n := &N{K: "array"}
	if c.isMap {
		n.K = "map"
		n.Keys = bins(c.keys)
	}
	for _, m := range c.members {
		if m.c != nil {
			n.Kids = append(n.Kids, m.c.tree())
		} else {
			n.Kids = append(n.Kids, m.n)
		}
	}
	return n
}

func (c *cont) size() int {
	s := 1
	for _, m := range c.members {
		s++
		if m.c != nil {
			s += m.c.size()
		}
	}
	return s
}

// count is how often d occurs in the tree of c.
func (c *cont) count(d *cont) int {
	s := 0
	if c == d {
		s++
	}
	for _, m := range c.members {
		if m.c != nil {
			s += m.c.count(d)
		}
	}
	return s
}

func (c *cont) reaches(d *cont) bool {
	if c == d {
		return true
	}
	for _, m := range c.members {
		if m.c != nil && m.c.reaches(d) {
			return true
		}
	}
	return false
}

func (c *cont) find(key string) int {
	for i, k := range c.keys {
		if k == key {
			return i
		}
	}
	return -1
}

func (c *cont) put(key string, m member) {
	if i := c.find(key); i >= 0 {
		c.members[i] = m
		return
	}
	c.keys = append(c.keys, key)
	c.members = append(c.members, m)
}

func (c *cont) drop(i int) {
	c.members = append(append([]member{}, c.members[:i]...), c.members[i+1:]...)
	if c.isMap {
		c.keys = append(append([]string{}, c.keys[:i]...), c.keys[i+1:]...)
	}
}

// modelOf makes the model containers of a real document.
func modelOf(n *N, handle any, all *[]*cont) (*cont, error) {
	c := &cont{isMap: n.K == "map", handles: []any{handle}}
	*all = append(*all, c)
	for i, k := range n.Kids {
		if c.isMap {
			c.keys = append(c.keys, string(n.Keys[i]))
		}
		if k.K != "map" && k.K != "array" {
			c.members = append(c.members, member{n: k})
			continue
		}
		h, err := childHandle(c, handle, i, 0)
		if err != nil {
			return nil, err
		}
		d, err := modelOf(k, h, all)
		if err != nil {
			return nil, err
		}
		c.members = append(c.members, member{c: d})
	}
	return c, nil
}

// childHandle gets member i of a container, which is a container, through one of the reads.
func childHandle(c *cont, h any, i, v int) (any, error) {
	var val *json.Value
	var e []error
	if m, ok := h.(*json.Map); ok {
		key := c.keys[i]
		switch v % 5 {
		case 0, 1:
			if m.IsMap(key) {
				var r *json.Map
				if v%5 == 0 {
					r, e = m.GetMap(key)
				} else {
					w, err := m.GetMapValue(key)
					r, e = &w, err
				}
				if len(e) == 0 && r != nil {
					return r, nil
				}
			} else {
				var r *json.Array
				if v%5 == 0 {
					r, e = m.GetArray(key)
				} else {
					w, err := m.GetArrayValue(key)
					r, e = &w, err
				}
				if len(e) == 0 && r != nil {
					return r, nil
				}
			}
			return nil, fmt.Errorf("no container under %q: %s", key, errText(e))
		case 2:
			val = (*m.Values().GetValues())[i]
		default:
			val = m.GetValue(key)
		}
	} else {
		a := h.(*json.Array)
		if l := *a.GetValues(); i < len(l) {
			val = l[i]
			if val != nil && val.IsMap() && v%5 == 0 {
				if r, e := a.GetMap(i); len(e) == 0 && r != nil {
					return r, nil
				} else {
					return nil, fmt.Errorf("no map at index %d: %s", i, errText(e))
				}
			}
		}
	}
	if val == nil {
		return nil, fmt.Errorf("no value for member %d", i)
	}
	if val.IsMap() {
		if v%2 == 0 {
			if r, e := val.GetMap(); len(e) == 0 && r != nil {
				return r, nil
			}
		} else if r, e := val.GetMapValue(); len(e) == 0 {
			return &r, nil
		}
	} else if val.IsArray() {
		if v%2 == 0 {
			if r, e := val.GetArray(); len(e) == 0 && r != nil {
				return r, nil
			}
		} else if r, e := val.GetArrayValue(); len(e) == 0 {
			return &r, nil
		}
	}
	return nil, fmt.Errorf("member %d is not a container", i)
}

// storable is a container as it can be stored: by pointer, by value or in a value.
func storable(h any, v int) *json.Value {
	w := json.NewValue(nil)
	switch c := h.(type) {
	case *json.Map:
		switch v % 4 {
		case 0:
			w.SetMap(c)
		case 1:
			w.SetMapValue(*c)
		case 2:
			return json.NewValue(c)
		default:
			return json.NewValue(*c)
		}
	case *json.Array:
		switch v % 4 {
		case 0:
			w.SetArray(c)
		case 1:
			w.SetArrayValue(*c)
		case 2:
			return json.NewValue(c)
		default:
			return json.NewValue(*c)
		}
	}
	return w
}

// compareTree compares a container with what it should hold.
func compareTree(h any, want *N, what string) error {
	if m, ok := h.(*json.Map); ok {
		return cmpMap(m, want, what, false)
	}
	return cmpArray(h.(*json.Array), want, what, false)
}

// checkTree also compares what it is serialised to.
func checkTree(h any, want *N, what string) error {
	if err := compareTree(h, want, what); err != nil {
		return err
	}
	return sameText(h, want, what)
}

func putContainer(m *json.Map, key string, h any, v int) {
	if v >= 6 {
		m.SetValue(key, storable(h, v))
		return
	}
	switch c := h.(type) {
	case *json.Map:
		switch v {
		case 0, 1:
			m.SetMap(key, c)
		case 2, 3:
			m.SetMapValue(key, *c)
		case 4:
			m.SetObjectForMap(key, c)
		default:
			m.SetObjectForMap(key, *c)
		}
	case *json.Array:
		switch v {
		case 0, 1:
			m.SetArray(key, c)
		case 2, 3:
			m.SetArrayValue(key, *c)
		case 4:
			m.SetObjectForMap(key, c)
		default:
			m.SetObjectForMap(key, *c)
		}
	}
}

func appendContainer(a *json.Array, h any, v int) {
	switch {
	case v >= 6:
		a.AppendValue(storable(h, v))
		return
	case v >= 4:
		a.AppendValueValue(*storable(h, v))
		return
	}
	switch c := h.(type) {
	case *json.Map:
		if v < 2 {
			a.AppendMap(c)
		} else {
			a.AppendMapValue(*c)
		}
	case *json.Array:
		if v < 2 {
			a.AppendArray(c)
		} else {
			a.AppendArrayValue(*c)
		}
	}
}

var liveKeys = []string{"a", "b", "é", "", "nil", "x y"}

var _ = register(Prop{ID: "C20", Quick: 12000, Thor: 360000, After: []string{"clone", "set", "index"},
	Rule:   "one to three documents, built or parsed, and four to thirty operations on any container through any handle to it: get a nested container as a further handle (by every read, by pointer and by value), put a container into another by every operation (also into several places; cycles are left out), make new containers, set, append, replace, remove and overwrite members, clone and keep the clone; at the end every handle of every container, attached or not, is compared with the model and serialised; non-trivial: a change through a handle to a container that is nested in another one or has several handles",
	Assume: []string{"documents that contain themselves are not generated"}},
	func(t *rapid.T) liveCase {
		c := liveCase{}
		for i, n := 0, between(t, 1, 3); i < n; i++ {
			d := genMap(t, treeOpt{depth: 2, width: 3})
			if chance(t, 1, 4) {
				d = genArray(t, treeOpt{depth: 2, width: 3})
			} else if chance(t, 1, 10) {
				d = genDoc(t, treeOpt{depth: 1, width: 2, bulk: 24, chain: oneOf(t, 20, 20, 70)})
			} else if chance(t, 1, 15) {
				d = genBulk(t, treeOpt{bulk: oneOf(t, 24, 24, 130)}, "map", "array")
			}
			c.Docs = append(c.Docs, d)
			c.Parsed = append(c.Parsed, d.K == "map" && chance(t, 1, 3))
		}
		most := oneOf(t, 30, 30, 30, 30, 30, 30, 30, 90)
		for i, n := 0, between(t, 4, most); i < n; i++ {
			o := liveOp{A: pick(t, 12), B: oneOf(t, pick(t, 12), pick(t, 12), pick(t, 30)), H: pick(t, 6), Key: pick(t, len(liveKeys)), V: pick(t, 8)}
			switch pick(t, 12) {
			case 0, 1, 2:
				o.Op = "get"
			case 3, 4:
				o.Op = "put"
			case 5:
				o.Op = "new"
			case 6, 7, 8:
				o.Op, o.Val = "set", genScalar(t, treeOpt{})
			case 9:
				o.Op = "remove"
			case 10:
				o.Op = "replace"
				o.Val = genScalar(t, treeOpt{})
			default:
				o.Op = oneOf(t, "copy", "clone", "look", "copy")
				if chance(t, 1, 20) {
					o.Op, o.B = "fill", oneOf(t, 10, 20, 40, 70, 130, 260)
				}
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	},
	func(c liveCase, x *Ctx) error {
		var all []*cont
		for i, d := range c.Docs {
			v := makeValue(d)
			var h any
			if d.K == "map" {
				m, _ := v.GetMap()
				if c.Parsed[i] {
					text, e := toJSON(m)
					if len(e) > 0 {
						return fmt.Errorf("%s is not serialised: %s", clip(d.String()), errText(e))
					}
					var err error
					if m, err = parse(text); err != nil {
						return err
					}
					d = normal(d)
				}
				h = m
			} else {
				h, _ = v.GetArray()
			}
			if _, err := modelOf(d, h, &all); err != nil {
				return err
			}
		}
		nested := func(c *cont) bool {
			for _, d := range all {
				for _, m := range d.members {
					if m.c == c {
						return true
					}
				}
			}
			return false
		}
		for i, o := range c.Ops {
			a := all[o.A%len(all)]
			b := all[o.B%len(all)]
			h := a.handles[o.H%len(a.handles)]
			key := liveKeys[o.Key%len(liveKeys)]
			m, _ := h.(*json.Map)
			arr, _ := h.(*json.Array)
			what := fmt.Sprintf("operation %d (%s)", i+1, o.Op)
			x.steps++
			x.Class(o.Op)
			if o.Op == "put" || o.Op == "set" || o.Op == "remove" || o.Op == "replace" {
				x.Nontrivial(len(a.handles) > 1 || nested(a))
			}
			switch o.Op {
			case "get":
				var at []int
				for j, mem := range a.members {
					if mem.c != nil {
						at = append(at, j)
					}
				}
				if len(at) == 0 {
					continue
				}
				j := at[o.B%len(at)]
				g, err := childHandle(a, h, j, o.V)
				if err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				a.members[j].c.handles = append(a.members[j].c.handles, g)
			case "copy":
				if m != nil {
					w := *m
					a.handles = append(a.handles, &w)
				} else {
					w := *arr
					if o.V&1 == 1 {
						w, _ = arr.GetArrayValue()
					}
					a.handles = append(a.handles, &w)
				}
			case "clone", "look":
				want := a.tree()
				if o.Op == "look" { // what reads only
					if err := checkTree(h, want, what); err != nil {
						return err
					}
				}
				total := 0
				for _, d := range all {
					total += d.size()
				}
				var w any
				var e []error
				if m != nil {
					w, e = m.Clone()
				} else {
					w, e = arr.Clone()
				}
				if len(e) > 0 {
					return fmt.Errorf("%s: %s is not cloned: %s", what, clip(want.String()), errText(e))
				}
				if len(all) >= 14 || a.size() > 60 || total > 600 {
					continue
				}
				if _, err := modelOf(want, w, &all); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
			case "new":
				if len(all) >= 14 {
					continue
				}
				d := &cont{isMap: o.V&1 == 0}
				if d.isMap {
					d.handles = append(d.handles, json.NewMap())
				} else {
					d.handles = append(d.handles, json.NewArray())
				}
				all = append(all, d)
			case "put":
				if b.reaches(a) || b.size() > 300 || a.size() > 400 {
					continue
				}
				total := 0
				for _, d := range all {
					total += d.size()
				}
				if total > 1200 {
					continue
				}
				g := b.handles[o.V%len(b.handles)]
				x.ClassIf(nested(b), "put into a second place")
				if m != nil {
					putContainer(m, key, g, o.V)
					a.put(key, member{c: b})
				} else {
					appendContainer(arr, g, o.V)
					a.members = append(a.members, member{c: b})
				}
			case "fill":
				places := 0
				for _, d := range all {
					places += d.count(a)
				}
				if a.size() > 300 || places*o.B > 2500 {
					continue
				}
				for j := 0; j < o.B; j++ {
					v := &N{K: "int", S: Bin(strconv.Itoa(j)), V: o.V}
					if k := "f" + strconv.Itoa(j); m != nil {
						setMember(m, k, v)
						a.put(k, member{n: v})
					} else {
						appendTo(arr, v)
						a.members = append(a.members, member{n: v})
					}
				}
			case "set":
				if m != nil {
					setMember(m, key, o.Val)
					a.put(key, member{n: o.Val})
				} else {
					appendTo(arr, o.Val)
					a.members = append(a.members, member{n: o.Val})
				}
			case "remove", "replace":
				if len(a.members) == 0 {
					continue
				}
				j := o.B % len(a.members)
				x.ClassIf(a.members[j].c != nil, o.Op+" of a container")
				if o.Op == "replace" {
					if m != nil {
						setMember(m, a.keys[j], o.Val)
					} else {
						arr.SetValueAtIndex(j, makeValue(o.Val))
					}
					a.members[j] = member{n: o.Val}
					continue
				}
				if m != nil {
					m.RemoveKey(a.keys[j])
				} else {
					arr.RemoveValueAtIndex(j)
				}
				a.drop(j)
			}
		}
		for i, d := range all {
			want := d.tree()
			for j, h := range d.handles {
				what := fmt.Sprintf("container %d through handle %d", i, j)
				same := compareTree
				if j < 3 {
					same = checkTree
				}
				if err := same(h, want, what); err != nil {
					return err
				}
			}
		}
		return nil
	})
