package main

import (
	"math"
	"math/big"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Near copies: what a cache, a comparison or a shared buffer could take for the original.

// nearText draws a text that differs from s in little or nothing.
func nearText(t *rapid.T, s string) string {
	r := []rune(s)
	i := 0
	if len(r) > 0 {
		i = pick(t, len(r))
	}
	switch pick(t, 8) {
	case 0:
		return s
	case 1:
		return s + oneOf(t, " ", "\x00", "a", "0", "\n", ".", "é", "\u200d")
	case 2:
		return oneOf(t, " ", "\x00", "a", "0", "\n", "-", "\ufeff") + s
	case 3:
		if len(r) > 0 {
			return string(append(append([]rune{}, r[:i]...), r[i+1:]...))
		}
	case 4:
		if up := strings.ToUpper(s); up != s {
			return up
		}
		return strings.ToLower(s)
	case 5:
		if len(r) > 0 {
			r[i] = oneOf(t, 'a', 'b', '0', '"', '\\', ' ', 'é', '\U0001f600')
			return string(r)
		}
	case 6:
		if len(r) > 0 {
			return string(r[:i]) + string(r[i]) + string(r[i:])
		}
	default:
		if len(r) > 1 {
			r[i], r[0] = r[0], r[i]
			return string(r)
		}
	}
	return s + "b"
}

// near draws a tree that differs from n in little or nothing, of the same kind.
func near(t *rapid.T, n *N) *N {
	m := n.clone()
	if n.K != "null" {
		m.V = pick(t, 8)
	}
	switch {
	case n.K == "string" || n.K == "err":
		m.S = Bin(nearText(t, string(n.S)))
	case n.K == "errs" || n.K == "strs":
		if len(m.Keys) > 0 {
			if i := pick(t, len(m.Keys)); m.Keys[i] != noError {
				m.Keys[i] = Bin(nearText(t, string(m.Keys[i])))
			}
		}
	case n.K == "bool":
		m.S = oneOf(t, Bin("true"), Bin("false"))
	case isIntKind(n.K):
		v, _ := new(big.Int).SetString(string(n.S), 10)
		w := new(big.Int).Add(v, big.NewInt(oneOf(t, int64(1), -1, 2, -2, 10, 256, -256, 65536, 1<<32)))
		if chance(t, 1, 4) {
			w.Neg(v)
		}
		if fits(w, n.K) {
			m.S = Bin(w.String())
		}
	case n.K == "num":
		b := []byte(n.S)
		if i := len(b) - 1; i > 0 && i < 15 && !strings.ContainsAny(string(n.S), "eE") && b[i-1] >= '0' && b[i-1] <= '9' && (i > 1 || b[0] != '0') {
			b[i] = byte('0' + pick(t, 10))
			if !strings.HasPrefix(string(b), "-0") {
				m.S = Bin(b)
			}
		}
	case n.K == "float64" || n.K == "float32":
		f := n.f64()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			break
		}
		switch pick(t, 3) {
		case 0:
			f = -f
		case 1:
			if n.K == "float32" {
				f = float64(math.Nextafter32(n.f32(), oneOf(t, float32(0), math.MaxFloat32, -math.MaxFloat32)))
			} else {
				f = math.Nextafter(f, oneOf(t, 0, math.MaxFloat64, -math.MaxFloat64))
			}
		}
		v := m.V
		if m = f64N(f); n.K == "float32" {
			m = f32N(float32(f))
		}
		m.V = v
	case n.K == "time":
		m.S = Bin(timeText(nearTime(t, timeOf(string(n.S)))))
	case len(n.Kids) > 0:
		i := pick(t, len(n.Kids))
		switch pick(t, 4) {
		case 0:
			j := pick(t, len(n.Kids))
			m.Kids[i], m.Kids[j] = m.Kids[j], m.Kids[i]
		default:
			m.Kids[i] = near(t, m.Kids[i])
		}
	}
	return m
}

// nearTime draws a time close to another one, or the same one in another zone.
func nearTime(t *rapid.T, tm time.Time) time.Time {
	loc := time.UTC
	if off := oneOf(t, zones...); off != 0 {
		loc = time.FixedZone("z", off)
	}
	w := tm
	switch pick(t, 4) {
	case 0:
		w = tm.In(loc)
	case 1:
		w = time.Date(tm.Year(), tm.Month(), tm.Day(), tm.Hour(), tm.Minute(), tm.Second(), tm.Nanosecond(), loc)
	default:
		w = tm.Add(oneOf[time.Duration](t, 0, 1, -1, 2, -2, 50, -50, 999) * oneOf(t, time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24*time.Hour))
	}
	if y := w.Year(); y < 1 || y > 9999 {
		return tm
	}
	return w
}
