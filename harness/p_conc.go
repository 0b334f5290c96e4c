package main

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/matehaxor03/holistic_json/json"
)

// ---- C15: documents do not influence each other

type concOp struct {
	Op  string `json:"op"`
	Key Bin    `json:"key,omitempty"`
	I   int    `json:"i,omitempty"`
	Val *N     `json:"val,omitempty"`
	Txt Bin    `json:"txt,omitempty"`
}

type concDoc struct {
	Start int      `json:"start"`
	Init  *N       `json:"init"`
	Ops   []concOp `json:"ops"`
}

type concCase struct {
	Docs    []concDoc `json:"docs"`
	Order   []int     `json:"order"`
	Shared  *N        `json:"shared"`
	Parsed  bool      `json:"parsed"`
	Readers int       `json:"readers"`
	Reads   []concOp  `json:"reads"`
	Storm   bool      `json:"storm"`
}

// the first cases of a process meet a library that has not been used yet
var stormed int

// render writes down a result of a call.
func render(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	switch r := v.Interface().(type) {
	case *json.Map:
		if r == nil {
			return "nil"
		}
		return dump(r)
	case *json.Array:
		if r == nil {
			return "nil"
		}
		return dump(r)
	case *json.Value:
		if r == nil {
			return "nil"
		}
		return dump(r)
	case json.Map:
		return dump(&r)
	case json.Array:
		return dump(&r)
	case json.Value:
		return dump(&r)
	case time.Time:
		return r.UTC().Format(time.RFC3339Nano)
	case []error:
		return fmt.Sprintf("%d errors", len(r))
	case error:
		return "error"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + render(v.Elem())
	case reflect.Slice:
		var b strings.Builder
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			b.WriteString(render(v.Index(i)) + ",")
		}
		return b.String() + "]"
	case reflect.Float32, reflect.Float64:
		return strconv.FormatUint(math.Float64bits(v.Float()), 16)
	case reflect.String:
		return strconv.QuoteToASCII(v.String())
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Interface())
	}
	return v.Type().String()
}

func readNames(o any) []string {
	var names []string
	for _, n := range funcFields(o) {
		if isRead(n) && n != "ToJSONString" {
			names = append(names, n)
		}
	}
	return names
}

func reads(o any) int { return len(readNames(o)) }

// readAny calls one read of an object and writes down the result.
func readAny(o any, k int, key string) string {
	names := readNames(o)
	name := names[k%len(names)]
	f, _ := op(o, name)
	var args []reflect.Value
	for i := 0; i < f.Type().NumIn(); i++ {
		switch f.Type().In(i).Kind() {
		case reflect.String:
			args = append(args, reflect.ValueOf(key))
		case reflect.Int:
			args = append(args, reflect.ValueOf(k%7))
		default:
			args = append(args, reflect.Zero(f.Type().In(i)))
		}
	}
	if strings.HasPrefix(name, "GetTime") {
		var w *json.Value
		switch v := o.(type) {
		case *json.Map:
			w = v.GetValue(key)
		case *json.Value:
			w = v
		}
		if w != nil {
			if s, e := w.GetStringValue(); len(e) == 0 && strings.EqualFold(strings.TrimSpace(s), "now") {
				return name + ": the current time"
			}
		}
	}
	out := f.Call(args)
	var l []string
	for _, r := range out {
		l = append(l, render(r))
	}
	return fmt.Sprintf("%T.%s(%q): %s", o, name, key, strings.Join(l, " | "))
}

// worker runs the program of one document and keeps what it sees.
type worker struct {
	m   *json.Map
	log []string
}

func (w *worker) start(d concDoc) error {
	m, _, err := startMap(d.Start, d.Init)
	w.m = m
	if err == nil {
		w.m.SetArray("list", json.NewArray())
	}
	return err
}

func (w *worker) note(f string, a ...any) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func (w *worker) step(o concOp) {
	key := string(o.Key)
	switch o.Op {
	case "set":
		setMember(w.m, key, o.Val)
	case "remove":
		ok, err := w.m.RemoveKey(key)
		w.note("remove %v %v", ok, err != nil)
	case "append":
		if a, e := w.m.GetArray("list"); a != nil && len(e) == 0 {
			appendTo(a, o.Val)
			if o.I%3 == 0 {
				ok, err := a.RemoveValueAtIndex(o.I % (a.Len() + 1))
				w.note("remove at %v %v", ok, err != nil)
			}
		}
	case "change":
		if v := w.m.GetValue(key); v != nil {
			v.SetObject(makeValue(o.Val).GetObject())
		}
	case "read":
		ps := parts(w.m)
		w.note("%s", readAny(ps[o.I%len(ps)], o.I/3, key))
		w.note("%s", readAny(w.m, o.I, key))
	case "poke":
		ps := parts(w.m)
		poke(ps[o.I%len(ps)], key, o.I)
	case "clone":
		c, e := w.m.Clone()
		if c == nil || len(e) > 0 {
			w.note("not cloned %v", len(e))
		} else {
			if o.I%2 == 0 {
				w.m.SetStringValue("in the one left", key)
				w.m = c
			} else {
				c.SetStringValue("in the clone", key)
			}
			w.note("%s", dump(c))
		}
	case "parse":
		m, e := json.Parse(string(o.Txt))
		if m != nil && len(e) == 0 {
			if o.I%2 == 0 {
				w.m.SetMap(key, m)
			}
			w.note("parsed %s", dump(m))
		} else {
			w.note("not parsed: %d", len(e))
		}
	default:
		s, e := toJSON(w.m)
		w.note("%s %d", s, len(e))
	}
}

func (w *worker) finish() {
	w.note("%s", dump(w.m))
	s, e := toJSON(w.m)
	w.note("%s %d", s, len(e))
}

func firstDifference(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			got := "nothing"
			if i < len(b) {
				got = b[i]
			}
			return fmt.Sprintf("observation %d is %s and not %s", i+1, clip(got), clip(a[i]))
		}
	}
	return fmt.Sprintf("there are %d observations and not %d", len(b), len(a))
}

// together runs functions at the same time and hands their panics on.
func together(fs []func()) error {
	var wg sync.WaitGroup
	begin := make(chan struct{})
	errs := make([]error, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = crash{fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
				}
			}()
			<-begin
			f()
		}()
	}
	close(begin)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// barrier lets n goroutines go on at the same moment.
type barrier struct {
	n       int64
	arrived atomic.Int64
	broken  atomic.Bool
}

func (b *barrier) wait() {
	turn := (b.arrived.Add(1)-1)/b.n + 1
	for i := 0; b.arrived.Load() < turn*b.n && !b.broken.Load(); i++ {
		if i > 100 {
			runtime.Gosched()
		}
	}
}

// storm lets goroutines do the same things at the same moment, so that two of them meet in whatever the library
// prepares when it is first used: build, serialise, parse and clone documents of their own and read every part of
// them, and then read every part of one document.
func storm(n *N, key string, many int) error {
	shared := buildMap(n)
	logs := make([][]string, many)
	b := &barrier{n: int64(many)}
	var fs []func()
	for g := range logs {
		fs = append(fs, func() {
			done := false
			defer func() {
				if !done {
					b.broken.Store(true)
				}
			}()
			note := func(f string, a ...any) { logs[g] = append(logs[g], fmt.Sprintf(f, a...)) }
			b.wait()
			m := buildMap(n)
			b.wait()
			text, e := toJSON(m)
			b.wait()
			p, pe := json.Parse(text)
			b.wait()
			c, ce := m.Clone()
			note("%s %d %d %d", text, len(e), len(pe), len(ce))
			for _, w := range []*json.Map{p, c} {
				if w != nil {
					note("%s", dump(w))
				}
			}
			for _, w := range []*json.Map{m, shared} {
				seen := map[string]int{}
				for _, o := range parts(w) {
					kind := fmt.Sprintf("%T", o)
					if v, ok := o.(*json.Value); ok {
						kind += v.GetType()
					}
					if seen[kind]++; seen[kind] > 1 || len(seen) > 12 {
						continue
					}
					for k, most := 0, reads(o); k < most; k++ {
						b.wait()
						note("%s", readAny(o, k, key))
					}
				}
			}
			done = true
		})
	}
	if err := together(fs); err != nil {
		return err
	}
	for g, l := range logs {
		if strings.Join(l, "\n") != strings.Join(logs[0], "\n") {
			return fmt.Errorf("goroutine %d does not see what another sees of an equal document: %s", g+1, firstDifference(logs[0], l))
		}
	}
	return nil
}

var concTree = treeOpt{depth: 1, width: 3, times: true, errs: true}

var _ = register(Prop{ID: "C15", Quick: 600, Thor: 24000, Race: true,
	Rule:   "two or three documents (new, parsed, cloned, nested, built), each with a program of two to ten operations (typed sets, removals, appends, changes in place, any read found by reflection, writes through handed out pointers, clones, parses of valid and broken text, serialisations) whose every observation is written down: all at once in goroutines under the race detector, then each program on its own, then all interleaved step by step in a random order, with identical observations required; at the start of the process, and in every twelfth case, three goroutines make every step and read at the same moment, on equal documents and on one document; and one document read by two to five goroutines at once (whole content, text, clone, any read found by reflection), with the observations of one reader required; non-trivial: at least two programs with at least three operations each",
	Assume: []string{"goroutine schedules are those the Go scheduler happens to produce; the race detector needs the two accesses to be executed, not to collide", "the current time is not compared"}},
	func(t *rapid.T) concCase {
		textCap = 300
		c := concCase{Storm: chance(t, 1, 12), Readers: between(t, 2, 5), Parsed: bit.Draw(t, ""), Shared: genMap(t, treeOpt{depth: 2, width: 3, times: true, errs: true})}
		keys := []Bin{Bin(genKey(t)), Bin(genKey(t)), "a", "list"}
		genOp := func(reads bool) concOp {
			o := concOp{Key: oneOf(t, keys...), I: pick(t, 700)}
			k := pick(t, 18)
			if reads {
				k = 11 + pick(t, 4)
			}
			switch k {
			case 0, 1, 2, 3, 4:
				o.Op, o.Val = "set", genNode(t, concTree)
			case 5:
				o.Op = "remove"
			case 6, 7:
				o.Op, o.Val = "append", genNode(t, treeOpt{depth: 1, width: 2, times: true})
			case 8:
				o.Op, o.Val = "change", genScalar(t, concTree)
			case 9:
				o.Op = "poke"
			case 10, 11, 12:
				o.Op = "read"
			case 13:
				o.Op = "clone"
			case 14:
				o.Op = "serialise"
			default:
				o.Op = "parse"
				if chance(t, 1, 3) {
					o.Txt = Bin(genBad(t).Text)
				} else {
					_, toks, ws := genDocTextOf(t, treeOpt{depth: 2, width: 3, parsed: true, bulk: 130, chain: 70})
					o.Txt = Bin(join(toks, ws))
				}
			}
			return o
		}
		var turns []int
		for i, n := 0, between(t, 2, 3); i < n; i++ {
			if i > 0 && chance(t, 1, 3) {
				w := c.Docs[i-1]
				d := concDoc{Start: w.Start, Init: near(t, w.Init)}
				for _, o := range w.Ops {
					if o.Val != nil {
						o.Val = near(t, o.Val)
					}
					d.Ops = append(d.Ops, o)
					turns = append(turns, i)
				}
				c.Docs = append(c.Docs, d)
				continue
			}
			d := concDoc{Start: oneOf(t, 0, 1, 2, 3, 5, 6), Init: genMap(t, concTree)}
			for j, k := 0, between(t, 2, 10); j < k; j++ {
				d.Ops = append(d.Ops, genOp(false))
				turns = append(turns, i)
			}
			c.Docs = append(c.Docs, d)
		}
		for len(turns) > 0 {
			i := pick(t, len(turns))
			c.Order = append(c.Order, turns[i])
			turns = append(turns[:i], turns[i+1:]...)
		}
		for i, n := 0, between(t, 1, 5); i < n; i++ {
			c.Reads = append(c.Reads, genOp(true))
		}
		return c
	},
	func(c concCase, x *Ctx) error {
		fresh := func() ([]*worker, error) {
			var ws []*worker
			for _, d := range c.Docs {
				w := &worker{}
				if err := w.start(d); err != nil {
					return nil, err
				}
				ws = append(ws, w)
			}
			return ws, nil
		}
		if stormed++; stormed <= 4 || c.Storm {
			x.Class("storm")
			if err := storm(c.Shared, string(c.Docs[0].Ops[0].Key), 3); err != nil {
				return err
			}
		}
		// all at once
		racing := make([]*worker, len(c.Docs))
		var fs []func()
		startErr := make([]error, len(c.Docs))
		for i := range racing {
			racing[i] = &worker{}
			fs = append(fs, func() {
				if startErr[i] = racing[i].start(c.Docs[i]); startErr[i] != nil {
					return
				}
				for _, o := range c.Docs[i].Ops {
					racing[i].step(o)
				}
				racing[i].finish()
			})
		}
		if err := together(fs); err != nil {
			return err
		}
		for _, e := range startErr {
			if e != nil {
				return e
			}
		}
		// each on its own
		var alone []*worker
		for _, d := range c.Docs {
			w := &worker{}
			if err := w.start(d); err != nil {
				return err
			}
			for _, o := range d.Ops {
				x.Class(o.Op)
				x.steps++
				w.step(o)
			}
			w.finish()
			alone = append(alone, w)
		}
		same := func(ws []*worker, how string) error {
			for i, w := range ws {
				if strings.Join(alone[i].log, "\n") != strings.Join(w.log, "\n") {
					return fmt.Errorf("document %d %s does not see what it sees on its own: %s", i+1, how, firstDifference(alone[i].log, w.log))
				}
			}
			return nil
		}
		// step by step in turns
		ws, err := fresh()
		if err != nil {
			return err
		}
		next := make([]int, len(ws))
		for _, i := range c.Order {
			ws[i%len(ws)].step(c.Docs[i%len(ws)].Ops[next[i%len(ws)]])
			next[i%len(ws)]++
		}
		for _, w := range ws {
			w.finish()
		}
		if err := same(ws, "interleaved with the others"); err != nil {
			return err
		}
		if err := same(racing, "in a goroutine besides the others"); err != nil {
			return err
		}
		// one document, several readers
		root := buildMap(c.Shared)
		if c.Parsed {
			text, e := toJSON(root)
			if len(e) > 0 {
				return fmt.Errorf("%s is not serialised: %s", clip(c.Shared.String()), errText(e))
			}
			if root, err = parse(text); err != nil {
				return err
			}
		}
		look := func(root *json.Map) []string {
			var log []string
			s, e := toJSON(root)
			log = append(log, dump(root), s, fmt.Sprint(len(e)))
			for _, o := range c.Reads {
				switch o.Op {
				case "read":
					ps := parts(root)
					log = append(log, readAny(ps[o.I%len(ps)], o.I/3, string(o.Key)))
					keys := root.GetKeys()
					key := string(o.Key)
					if len(keys) > 0 {
						key = keys[o.I%len(keys)]
					}
					log = append(log, readAny(root, o.I, key))
				case "clone":
					m, e := root.Clone()
					if m == nil || len(e) > 0 {
						log = append(log, "not cloned")
					} else {
						m.SetStringValue("mine", "mine")
						log = append(log, dump(m))
					}
				default:
					s, e := toJSON(root)
					log = append(log, s, fmt.Sprint(len(e)))
				}
			}
			return log
		}
		// The expected observations come from another, equal document: nothing has read the shared one before.
		twin := buildMap(c.Shared)
		if c.Parsed {
			text, _ := toJSON(twin)
			if twin, err = parse(text); err != nil {
				return err
			}
		}
		want := look(twin)
		logs := make([][]string, c.Readers)
		fs = nil
		for i := range logs {
			fs = append(fs, func() { logs[i] = look(root) })
		}
		if err := together(fs); err != nil {
			return err
		}
		for i, l := range logs {
			if strings.Join(l, "\n") != strings.Join(want, "\n") {
				return fmt.Errorf("reader %d of %d of %s: %s", i+1, c.Readers, clip(c.Shared.String()), firstDifference(want, l))
			}
		}
		x.ClassIf(c.Parsed, "shared parsed document")
		long := 0
		for _, d := range c.Docs {
			if len(d.Ops) >= 3 {
				long++
			}
		}
		x.Nontrivial(long >= 2)
		return nil
	})
