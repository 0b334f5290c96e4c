package main

import (
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

var bit = rapid.Bool()

// pick draws an index below n, every index about equally likely.
func pick(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	bits := 3
	for 1<<(bits-3) < n {
		bits++
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if bit.Draw(t, "") {
			v |= 1
		}
	}
	return v * n >> bits
}

// chance is true about num times in den; shrinking goes to false.
func chance(t *rapid.T, num, den int) bool { return pick(t, den) >= den-num }

func oneOf[T any](t *rapid.T, l ...T) T { return l[pick(t, len(l))] }

func between(t *rapid.T, lo, hi int) int { return lo + pick(t, hi-lo+1) }

func bits64(t *rapid.T) uint64 {
	var v uint64
	for i := 0; i < 64; i++ {
		v <<= 1
		if bit.Draw(t, "") {
			v |= 1
		}
	}
	return v
}

// texts that have confused, or could confuse, code that looks at how a value prints
var lookAlikes = []string{
	"nil", "<nil>", "map[]", "&map[value:<nil>]", "%!s(*json.Value=<nil>)", "%!s(string=<nil>)", "%!s(*string=<nil>)",
	"&map[value:%!s(string=<nil>)]", "null", "NULL", "Null", "none", "undefined", "true", "false", "True", "TRUE", "1", "0", "-1",
	"12", "1.5", "1e5", "0x10", "NaN", "Inf", "{}", "[]", "{\"a\":1}", "[1,2]", "\"", "\"\"", "\\", "\\\\", "\\\"", "\\n", "\\u0041", "\\u",
	"\n", "\t", "\r", "\b", "\f", "\x00", "\x1f", "\x7f", "%", "%s", "%d%v", "%!", "100%", ",", ":", "{", "}", "[", "]", "/", "\\/", "</script>",
	" ", "  ", " a", "a ", "\ta\n", "now", "zero", "2024-01-02 03:04:05.000000", "0000-00-00 00:00:00", "&{}", "error", "key", "map[string]interface {}",
	"r", "n", "t", "b", "f", "u", "\\t\\r", "a\\", "a\"", "\"a\"", "'a'", "`", "=&{})]", "\ufffdude00", "\ufffd\\ude00", "\ufffd\ufffd", "\U0001d11euD83D", "\ufffd\ndc00", "\ufffdabdc00", "\ufffd\"de00",
}

var oddRunes = []rune{
	'é', 'ß', 'Ā', 'λ', 'Ж', 'א', 'ع', 'ह', '中', '日', '한', '\u0080', '\u0085', '\u00a0', '\u00ad', '\u07ff', '\u0800', '\u200b', '\u200d', '\u2028', '\u2029',
	'\u3000', '\ud7ff', '\ue000', '\ufeff', '\ufffd', '\uffff', '\U00010000', '😀', '👍', '🇦', '\U0001d11e', '\U000fffff', '\U0010ffff', 'ı', 'K', '\u0301',
}

var structural = []rune{'{', '}', '[', ']', ',', ':', '"', '\\', '/', ' ', '\n', '\t', '\r', '\'', '-', '+', '.', '%', '<', '>', '&', '=', '(', ')', 'u', 'n', 'r', 't', 'b', 'f', '0', '1', '\x00', '\x01', '\x08', '\x0c', '\x1f', '\x7f'}

// textCap bounds how often a piece is repeated in a long text: lower for properties that parse a text many times.
var textCap = 5000

// genText draws text in valid UTF-8.
func genText(t *rapid.T) string {
	switch pick(t, 17) {
	case 16: // words and structure with runs of whitespace around and between them
		var b strings.Builder
		for i, n := 0, between(t, 1, 3); i < n; i++ {
			b.WriteString(oneOf(t, "", " ", "  ", " \t ", "\n\n", "   ", "\r\n", "\t", "\u00a0", " \n"))
			b.WriteString(oneOf(t, "a", "b c", "", ",", ":", "{", "}", "[", "]", "\"", "\\", "1", "null", "é", "word"))
		}
		b.WriteString(oneOf(t, "", " ", "  ", "\t\t", "\n", " \r\n "))
		return b.String()
	case 0, 1, 2, 3:
		return genWord(t, 0, 6)
	case 4, 5, 6:
		return lookAlikes[pick(t, len(lookAlikes))]
	case 7, 8, 9, 10, 11:
		n := between(t, 1, 8)
		var b strings.Builder
		for i := 0; i < n; i++ {
			switch pick(t, 4) {
			case 0:
				b.WriteByte(byte('a' + pick(t, 26)))
			case 1:
				b.WriteRune(oddRunes[pick(t, len(oddRunes))])
			default:
				b.WriteRune(structural[pick(t, len(structural))])
			}
		}
		return b.String()
	case 12, 13:
		n := between(t, 2, 4)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(lookAlikes[pick(t, len(lookAlikes))])
			if bit.Draw(t, "") {
				b.WriteRune(oddRunes[pick(t, len(oddRunes))])
			}
		}
		return b.String()
	case 14:
		n := between(t, 1, 5)
		var b strings.Builder
		for i := 0; i < n; i++ {
			r := rune(bits64(t) % (utf8.MaxRune + 1))
			if !utf8.ValidRune(r) {
				r = 'x'
			}
			b.WriteRune(r)
		}
		return b.String()
	default:
		n := between(t, 10, 120)
		if chance(t, 1, 8) {
			n = oneOf(t, 128, 256, 512, 513, 1024, 1025, 2048, 4096)
			if chance(t, 1, 12) {
				n = 20000
			}
			if textCap == 5000 && chance(t, 1, 60) {
				return strings.Repeat(oneOf(t, "a", "b", "ab"), 40000) + oneOf(t, "", "é", "\"", strings.Repeat("c", 26000))
			}
			n = min(n, textCap)
		}
		return strings.Repeat(oneOf(t, "ab", "\"", "\\", "é", "x{", "\n", "😀", " ", "a b", ", ", "\\\""), n) + oneOf(t, "", "z", "é", "\"")
	}
}

func genWord(t *rapid.T, lo, hi int) string {
	n := between(t, lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEF0123456789_-. "[pick(t, 46)]
	}
	return string(b)
}

func genKey(t *rapid.T) string {
	switch pick(t, 8) {
	case 0, 1, 2, 3:
		return string(rune('a' + pick(t, 6)))
	case 4, 5:
		return genWord(t, 1, 5)
	default:
		return genText(t)
	}
}

var intKinds = []string{"int", "int8", "int16", "int32", "int64"}
var uintKinds = []string{"uint", "uint8", "uint16", "uint32", "uint64"}

func kindBits(k string) int {
	switch k {
	case "int", "uint", "int64", "uint64":
		return 64
	case "int32", "uint32":
		return 32
	case "int16", "uint16":
		return 16
	}
	return 8
}

func isSigned(k string) bool   { return strings.HasPrefix(k, "int") }
func isUnsigned(k string) bool { return strings.HasPrefix(k, "uint") }
func isIntKind(k string) bool  { return isSigned(k) || isUnsigned(k) }
func isFloatKind(k string) bool {
	return k == "float32" || k == "float64"
}

func kindMin(k string) *big.Int {
	if isUnsigned(k) {
		return big.NewInt(0)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(kindBits(k)-1)))
}

func kindMax(k string) *big.Int {
	n := kindBits(k)
	if isSigned(k) {
		n--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
}

func fits(v *big.Int, k string) bool { return v.Cmp(kindMin(k)) >= 0 && v.Cmp(kindMax(k)) <= 0 }

// genBig draws an integer; near the limits of the widths, of doubles and of floats, powers, small ones and random ones.
func genBig(t *rapid.T) *big.Int {
	var v *big.Int
	switch pick(t, 5) {
	case 0:
		v = big.NewInt(int64(between(t, 0, 300)))
	case 1, 2:
		v = new(big.Int).Lsh(big.NewInt(1), uint(oneOf(t, 7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 54, 62, 63, 64)))
		v.Add(v, big.NewInt(int64(between(t, -3, 3))))
	case 3:
		v = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(between(t, 0, 19))), nil)
		v.Add(v, big.NewInt(int64(between(t, -2, 2))))
	default:
		v = new(big.Int).SetUint64(bits64(t) >> uint(pick(t, 64)))
	}
	if bit.Draw(t, "") {
		v.Neg(v)
	}
	return v
}

// genIntOf draws an integer that fits the kind.
func genIntOf(t *rapid.T, k string) *big.Int {
	if chance(t, 1, 4) {
		v := new(big.Int).Set(kindMax(k))
		if bit.Draw(t, "") {
			v = new(big.Int).Set(kindMin(k))
			return v.Add(v, big.NewInt(int64(between(t, 0, 2))))
		}
		return v.Sub(v, big.NewInt(int64(between(t, 0, 2))))
	}
	v := genBig(t)
	if fits(v, k) {
		return v
	}
	m := new(big.Int).Add(kindMax(k), big.NewInt(1))
	v.Abs(v)
	return v.Mod(v, m)
}

func genFloat64(t *rapid.T) float64 {
	var f float64
	switch pick(t, 8) {
	case 0:
		f = float64(between(t, 0, 40)) / oneOf(t, 1.0, 2, 3, 4, 7, 8, 10, 100)
	case 1:
		f = oneOf(t, 0, math.MaxFloat32, math.MaxFloat64, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1.1754943508222875e-38,
			0.1, 0.2, 0.3, 1.0/3, 1e-7, 1e21, 1e22, 1e23, 9007199254740993, 16777217, 123456789.123456789, 0.1234567, 1e-6, 1.5e-6, 9.5e-7, 5e-7, 3.4028235677973366e38, 4.9406564584124654e-324)
	case 2:
		f = float64(math.Float32frombits(uint32(bits64(t))))
	case 3:
		f = math.Float64frombits(bits64(t))
	case 4:
		f, _ = strconv.ParseFloat(strconv.Itoa(between(t, 0, 9))+"."+strconv.FormatUint(bits64(t)>>uint(pick(t, 64)), 10), 64)
	case 5:
		b, _ := new(big.Float).SetInt(genBig(t)).Float64()
		f = b
	case 6:
		f = math.Ldexp(float64(between(t, 1, 15)), between(t, -160, 160))
	default:
		f = math.Nextafter(float64(float32(between(t, 1, 99))/10), oneOf(t, 0.0, 100))
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		f = 0.5
	}
	if bit.Draw(t, "") {
		f = -f
	}
	return f
}

func genFloat32(t *rapid.T) float32 {
	if chance(t, 1, 3) {
		f := math.Float32frombits(uint32(bits64(t)))
		if f == f && !math.IsInf(float64(f), 0) {
			return f
		}
	}
	f := float32(genFloat64(t))
	if math.IsInf(float64(f), 0) {
		return math.MaxFloat32
	}
	return f
}

var zones = []int{0, 0, 3600, -18000, 19800, 45900, -43200}

// timeText is how a case stores a time: seconds, nanoseconds and zone offset.
func timeText(tm time.Time) string {
	_, off := tm.Zone()
	return strconv.FormatInt(tm.Unix(), 10) + "," + strconv.Itoa(tm.Nanosecond()) + "," + strconv.Itoa(off)
}

func timeOf(s string) time.Time {
	p := strings.Split(s, ",")
	sec, _ := strconv.ParseInt(p[0], 10, 64)
	ns, _ := strconv.ParseInt(p[1], 10, 64)
	off, _ := strconv.Atoi(p[2])
	if off == 0 {
		return time.Unix(sec, ns).UTC()
	}
	return time.Unix(sec, ns).In(time.FixedZone("z", off))
}

// genTime draws a time of the years 1 to 9999, sub-second part included, in some zone.
func genTime(t *rapid.T) time.Time {
	y := oneOf(t, 1, 2, 99, 100, 1582, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2024, 2038, 2100, 2400, 9998, 9999)
	if bit.Draw(t, "") {
		y = between(t, 1, 9999)
	}
	ns := oneOf(t, 0, 0, 1, 999, 1000, 999999, 1000000, 123456789, 120000000, 999999999, 999999499, 999999500, 500000000, 100000000, 10000000)
	if chance(t, 1, 3) {
		ns = int(bits64(t) % 1000000000)
	}
	mo, d := between(t, 1, 12), between(t, 1, 28)
	if chance(t, 1, 4) {
		d = time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	}
	h, mi, s := between(t, 0, 23), between(t, 0, 59), between(t, 0, 59)
	if chance(t, 1, 4) {
		h, mi, s = oneOf(t, 0, 23, 12), oneOf(t, 0, 59), oneOf(t, 0, 59)
	}
	off := oneOf(t, zones...)
	loc := time.UTC
	if off != 0 {
		loc = time.FixedZone("z", off)
	}
	return time.Date(y, time.Month(mo), d, h, mi, s, ns, loc)
}

// numText draws a number as JSON spells it, in the range that Parse represents.
func numText(t *rapid.T) string {
	if chance(t, 1, 2) {
		for i := 0; i < 4; i++ {
			v := genBig(t)
			if v.Sign() < 0 && fits(v, "int64") || v.Sign() >= 0 && fits(v, "uint64") {
				if v.Sign() == 0 && chance(t, 1, 3) {
					return "-0"
				}
				return v.String()
			}
		}
		return "7"
	}
	s := decimalText(t)
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsInf(f, 0) {
		return "2.5"
	}
	return s
}

// decimalText draws a number with a fraction, an exponent or both.
func decimalText(t *rapid.T) string {
	sign := ""
	if bit.Draw(t, "") {
		sign = "-"
	}
	switch pick(t, 5) {
	case 0:
		f := math.Abs(genFloat64(t))
		s := strconv.FormatFloat(f, byte(oneOf(t, 'f', 'e', 'g', 'E')), -1, 64)
		if strings.Trim(s, "0123456789") == "" {
			s += oneOf(t, ".0", "e0", ".00", "E+0")
		}
		return sign + s
	case 1:
		f := math.Abs(float64(genFloat32(t)))
		s := strconv.FormatFloat(f, byte(oneOf(t, 'f', 'e')), oneOf(t, -1, -1, 3, 6, 8, 9, 12), 32)
		if strings.Trim(s, "0123456789") == "" {
			s += ".0"
		}
		return sign + s
	}
	s := sign
	if bit.Draw(t, "") {
		s += "0"
	} else {
		s += strconv.FormatUint(bits64(t)>>uint(between(t, 0, 63))|1, 10)
	}
	frac := bit.Draw(t, "")
	if frac {
		s += "." + digits(t, oneOf(t, 1, 1, 2, 3, 6, 7, 9, 15, 17, 18, 25))
	}
	if !frac || chance(t, 1, 3) {
		s += oneOf(t, "e", "E") + oneOf(t, "", "+", "-")
		s += oneOf(t, "", "0") + strconv.Itoa(oneOf(t, between(t, 0, 9), between(t, 0, 40), between(t, 0, 330)))
	}
	return s
}

func digits(t *rapid.T, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + pick(t, 10))
	}
	return string(b)
}
