package main

import (
	"fmt"
	"strconv"

	"pgregory.net/rapid"

	"github.com/matehaxor03/holistic_json/json"
)

// ---- C24: a value is a live cell

type cellOp struct {
	Op  string `json:"op"`
	C   int    `json:"c,omitempty"` // container
	H   int    `json:"h,omitempty"` // handle
	I   int    `json:"i,omitempty"` // slot, or which container a value is made to hold
	V   int    `json:"v,omitempty"` // which operation does it
	Key Bin    `json:"key,omitempty"`
	N   *N     `json:"n,omitempty"`
}

type cellCase struct {
	Text Bin      `json:"text"` // what the first map is parsed from, when it is
	Syn  *N       `json:"syn,omitempty"`
	Ops  []cellOp `json:"ops"`
	Fill []int    `json:"fill"` // how many members the containers have to begin with
}

// changeValue changes a value through the operation that n.V selects.
func changeValue(w *json.Value, n *N) {
	switch n.K {
	case "map":
		c := buildMap(n)
		switch n.V & 3 {
		case 0, 1:
			w.SetMap(c)
		case 2:
			w.SetMapValue(*c)
		default:
			w.SetObject(c)
		}
		return
	case "array":
		c := buildArray(n)
		switch n.V & 3 {
		case 0, 1:
			w.SetArray(c)
		case 2:
			w.SetArrayValue(*c)
		default:
			w.SetObject(*c)
		}
		return
	case "null":
		switch n.V {
		case 0, 1, 2, 3:
			w.SetNil()
		case 4, 5:
			w.SetObject(nil)
		case 6:
			w.SetString(nil)
		default:
			w.SetMap(nil)
		}
		return
	}
	v := native(n)
	switch n.V & 3 {
	case 0:
		call(w, "Set"+title(n.K)+"Value", v)
	case 1:
		call(w, "Set"+title(n.K), ptrTo(v))
	case 2:
		w.SetObject(v)
	default:
		w.SetObject(ptrTo(v))
	}
}

type cell struct {
	n   *N
	ref int // the container it holds, -1 for none
}

type cellCont struct {
	obj   any
	keys  []Bin
	cells []int
	where bool // a map
}

type cellWorld struct {
	cells   []*cell
	conts   []*cellCont
	handles []struct {
		v    *json.Value
		cell int
	}
}

func (w *cellWorld) handle(v *json.Value, c int) {
	w.handles = append(w.handles, struct {
		v    *json.Value
		cell int
	}{v, c})
}

func (w *cellWorld) fresh(n *N) int {
	w.cells = append(w.cells, &cell{n: n, ref: -1})
	return len(w.cells) - 1
}

func (w *cellWorld) treeOfCell(c int) *N {
	if r := w.cells[c].ref; r >= 0 {
		return w.tree(r)
	}
	return w.cells[c].n
}

func (w *cellWorld) tree(i int) *N {
	c := w.conts[i]
	n := &N{K: "array"}
	if c.where {
		n.K, n.Keys = "map", c.keys
	}
	for _, k := range c.cells {
		n.Kids = append(n.Kids, w.treeOfCell(k))
	}
	return n
}

// holders are the containers that hold a cell.
func (w *cellWorld) holders(c int) (l []int) {
	for i, o := range w.conts {
		for _, k := range o.cells {
			if k == c {
				l = append(l, i)
			}
		}
	}
	return l
}

func (w *cellWorld) check() error {
	for i, c := range w.conts {
		var err error
		if c.where {
			err = cmpMap(c.obj.(*json.Map), w.tree(i), fmt.Sprintf("container %d", i), true)
		} else {
			err = cmpArray(c.obj.(*json.Array), w.tree(i), fmt.Sprintf("container %d", i), true)
		}
		if err != nil {
			return err
		}
	}
	for i, h := range w.handles {
		if err := cmpValue(h.v, w.treeOfCell(h.cell), fmt.Sprintf("handle %d (cell %d)", i, h.cell), true); err != nil {
			return err
		}
	}
	return nil
}

// put stores a cell in a slot of the model.
func (w *cellWorld) put(i int, key Bin, c int) {
	o := w.conts[i]
	if o.where {
		for j, k := range o.keys {
			if k == key {
				o.cells[j] = c
				return
			}
		}
		o.keys = append(o.keys, key)
	}
	o.cells = append(o.cells, c)
}

var _ = register(Prop{ID: "C24", Quick: 8000, Thor: 320000,
	Rule: "histories of 3 to 40 operations (rarely 150) over two maps, two arrays (sometimes with up to 70 members each to begin with) and up to four containers made of Go lists and maps, one map sometimes parsed: members and elements set, values taken from and put into containers by pointer and by value, one value in several places, values changed through any of their set operations and made to hold a scalar, a new container or one of the containers, overwritten, removed, cloned; one case in three with values mostly drawn from at most three; every handle and every container compared with a model of shared cells after every operation, and serialised at the end; non-trivial: a value was changed through a handle while a container held it"},
	func(t *rapid.T) cellCase {
		c := cellCase{}
		textCap = 40
		tree := treeOpt{depth: 1, width: 2, times: true, errs: true}
		if bit.Draw(t, "") {
			c.Syn = genMap(t, treeOpt{depth: 1, width: 4, parsed: true})
			toks := tokens(t, c.Syn, pick(t, 4), nil)
			c.Text = Bin(join(toks, spaces(t, len(toks), pick(t, 4))))
		}
		keys := []Bin{"a", "b", Bin(genKey(t))}
		n := between(t, 3, 40)
		if chance(t, 1, 3) {
			most := oneOf(t, 12, 12, 12, 20, 36, 70)
			for i := 0; i < 4; i++ {
				f := oneOf(t, 0, 3, most)
				c.Fill = append(c.Fill, between(t, f/2, f))
			}
		}
		if chance(t, 1, 40) {
			n = between(t, 40, 150)
		} else if chance(t, 1, 40) {
			n = between(t, 5, 15)
			c.Fill = []int{0, oneOf(t, 0, 130, 300), oneOf(t, 0, 130, 200, 300, 520), 0}
			if bit.Draw(t, "") {
				c.Fill[0], c.Fill[3] = c.Fill[2], c.Fill[1]
			}
		}
		var few []*N // what is stored is now and then one of a few values
		if chance(t, 1, 3) {
			for i, k := 0, between(t, 1, 3); i < k; i++ {
				few = append(few, oneOf(t, &N{K: "string"}, &N{K: "null"}, &N{K: "int", S: "1"}, &N{K: "string", S: "a"}, &N{K: "map"}, &N{K: "array"}, genNode(t, tree), genMap(t, tree)))
			}
		}
		node := func() *N {
			if few == nil || chance(t, 1, 8) {
				return genNode(t, tree)
			}
			n := oneOf(t, few...).clone()
			n.V = pick(t, 8)
			return n
		}
		far := 64
		for _, f := range c.Fill {
			if f > 0 && len(keys) < 6 { // one of the first, of the last, or any
				keys = append(keys, Bin("n"+strconv.Itoa(oneOf(t, 0, f-1, pick(t, f)))))
			}
			far = max(far, f+2)
		}
		for i := 0; i < n; i++ {
			o := cellOp{C: pick(t, 8), H: pick(t, 64), I: oneOf(t, pick(t, 64), pick(t, far)), V: pick(t, 8), Key: oneOf(t, keys...)}
			if i > 0 && bit.Draw(t, "") {
				o.C = c.Ops[i-1].C
			}
			if bit.Draw(t, "") {
				o.H = -between(t, 1, 3) // one of the last handles
			}
			switch pick(t, 16) {
			case 0, 1:
				o.Op, o.N = "set", node()
				if chance(t, 1, 4) {
					o.N = &N{K: "null", V: pick(t, 8)}
				}
			case 2, 3, 4:
				o.Op = "put"
			case 5, 6:
				o.Op = "get"
			case 7:
				o.Op = "copy"
			case 8:
				o.Op, o.N = "fresh", node()
			case 9, 10, 11:
				o.Op, o.N = "change", node()
			case 12:
				o.Op = "hold"
			case 13:
				o.Op = "remove"
			case 14:
				o.Op = "clone"
			default:
				o.Op = "bulk"
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	},
	func(c cellCase, x *Ctx) error {
		w := &cellWorld{}
		first := &cellCont{obj: json.NewMap(), where: true}
		if c.Syn != nil {
			m, err := parse(string(c.Text))
			if err != nil {
				return err
			}
			first.obj = m
			r := resolve(c.Syn)
			for i, k := range r.Keys {
				first.keys = append(first.keys, k)
				first.cells = append(first.cells, w.fresh(r.Kids[i]))
			}
			x.Class("parsed")
		}
		w.conts = []*cellCont{first, {obj: json.NewArray()}, {obj: json.NewMap(), where: true}, {obj: json.NewArray()}}
		for i, f := range c.Fill {
			o := w.conts[i]
			for j := 0; j < f; j++ {
				n, k := &N{K: "int", S: Bin(strconv.Itoa(j)), V: (i + j) % 8}, Bin("n"+strconv.Itoa(j))
				if o.where {
					setMember(o.obj.(*json.Map), string(k), n)
				} else {
					appendTo(o.obj.(*json.Array), n)
				}
				w.put(i, k, w.fresh(n))
			}
			x.ClassIf(f >= 8, "container with at least 8 members to begin with")
		}
		w.handle(makeValue(&N{K: "string", S: "start"}), w.fresh(&N{K: "string", S: "start"}))
		if err := w.check(); err != nil {
			return err
		}
		for step, o := range c.Ops {
			ci := o.C % len(w.conts)
			co := w.conts[ci]
			m, _ := co.obj.(*json.Map)
			a, _ := co.obj.(*json.Array)
			hi := o.H
			if hi < 0 {
				hi += len(w.handles) * 3
			}
			h := w.handles[hi%len(w.handles)]
			what := fmt.Sprintf("step %d, %s", step, o.Op)
			switch o.Op {
			case "set":
				if co.where {
					setMember(m, string(o.Key), o.N)
				} else {
					appendTo(a, o.N)
				}
				w.put(ci, o.Key, w.fresh(o.N))
			case "put":
				if r := w.cells[h.cell].ref; r >= 0 && r <= ci {
					continue
				}
				i := 0
				if len(co.cells) > 0 {
					i = o.I % len(co.cells)
				}
				switch {
				case co.where:
					m.SetValue(string(o.Key), h.v)
					w.put(ci, o.Key, h.cell)
				case o.V < 2:
					a.AppendValue(h.v)
					w.put(ci, "", h.cell)
				case o.V < 5 || len(co.cells) == 0:
					a.AppendValueValue(*h.v)
					w.put(ci, "", h.cell)
				default:
					if ok, err := a.SetValueAtIndex(i, h.v); !ok || err != nil {
						return fmt.Errorf("%s: SetValueAtIndex(%d) reports %v, %v", what, i, ok, err)
					}
					co.cells[i] = h.cell
				}
				x.ClassIf(len(w.holders(h.cell)) > 1, "value in several places")
			case "get", "remove":
				if len(co.cells) == 0 {
					continue
				}
				i := o.I % len(co.cells)
				if o.Op == "get" {
					var v *json.Value
					switch {
					case co.where && o.V&1 == 0:
						v = m.GetValue(string(co.keys[i]))
					case co.where:
						v = (*m.Values().GetValues())[i]
					default:
						v = (*a.GetValues())[i]
					}
					w.handle(v, co.cells[i])
					break
				}
				if co.where {
					if ok, err := m.RemoveKey(string(co.keys[i])); !ok || err != nil {
						return fmt.Errorf("%s: RemoveKey reports %v", what, err)
					}
					co.keys = append(append([]Bin{}, co.keys[:i]...), co.keys[i+1:]...)
				} else if ok, err := a.RemoveValueAtIndex(i); !ok || err != nil {
					return fmt.Errorf("%s: RemoveValueAtIndex(%d) reports %v, %v", what, i, ok, err)
				}
				co.cells = append(append([]int{}, co.cells[:i]...), co.cells[i+1:]...)
			case "copy":
				v := *h.v
				w.handle(&v, h.cell)
			case "fresh":
				w.handle(makeValue(o.N), w.fresh(o.N))
			case "change":
				l := w.holders(h.cell)
				x.Nontrivial(len(l) > 0)
				x.ClassIf(len(l) > 1, "change of a value in several places")
				x.ClassIf(len(l) == 0, "change of a value on its own")
				x.Class("change to " + o.N.K)
				changeValue(h.v, o.N)
				w.cells[h.cell].n, w.cells[h.cell].ref = o.N, -1
			case "hold":
				r := o.I % len(w.conts)
				ok := true
				for _, i := range w.holders(h.cell) {
					ok = ok && i < r
				}
				if !ok {
					continue
				}
				x.Class("value made to hold a container")
				switch p := w.conts[r].obj.(type) {
				case *json.Map:
					if o.V < 4 {
						h.v.SetMap(p)
					} else {
						h.v.SetMapValue(*p)
					}
				case *json.Array:
					if o.V < 4 {
						h.v.SetArray(p)
					} else {
						h.v.SetArrayValue(*p)
					}
				}
				w.cells[h.cell].n, w.cells[h.cell].ref = nil, r
			case "clone":
				v, e := h.v.Clone()
				if len(e) > 0 || v == nil {
					return fmt.Errorf("%s: %s is not cloned: %s", what, clip(w.treeOfCell(h.cell).String()), errText(e))
				}
				w.handle(v, w.fresh(w.treeOfCell(h.cell).clone()))
			case "bulk":
				if len(w.conts) >= 8 {
					continue
				}
				n := &cellCont{where: o.V&1 == 0}
				var list []any
				goMap := map[string]any{}
				for i := 0; i < 1+o.I%4; i++ {
					k := w.handles[(hi+i*(1+o.V))%len(w.handles)]
					if w.cells[k.cell].ref >= 0 {
						continue
					}
					if n.where {
						if len(goMap) > 0 { // a Go map has no order
							break
						}
						if o.V&2 == 0 {
							goMap[string(o.Key)] = k.v
						} else {
							goMap[string(o.Key)] = *k.v
						}
						n.keys = []Bin{o.Key}
					} else if o.V&2 == 0 {
						list = append(list, k.v)
					} else {
						list = append(list, *k.v)
					}
					n.cells = append(n.cells, k.cell)
				}
				if n.where {
					n.obj = json.NewMapOfValues(&goMap)
				} else {
					n.obj = json.NewArrayOfValues(&list)
				}
				w.conts = append(w.conts, n)
			}
			x.Class(o.Op)
			x.steps++
			if err := w.check(); err != nil {
				return fmt.Errorf("after %s: %v", what, err)
			}
		}
		for i, c := range w.conts {
			text, e := toJSON(c.obj)
			if len(e) > 0 {
				return fmt.Errorf("container %d is not serialised: %s", i, errText(e))
			}
			r, err := readJSON(text)
			if err == nil {
				err = sameMeaning(r, w.tree(i), "document")
			}
			if err != nil {
				return fmt.Errorf("container %d is serialised to %s: %v", i, quote(text), err)
			}
		}
		return nil
	})
