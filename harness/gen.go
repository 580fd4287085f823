package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
)

// ---------- numbers ----------

// spell writes an exact decimal in one of many equivalent JSON spellings
func spell(r *rand.Rand, d Dec) json.Number {
	if d.zero {
		return json.Number([]string{"0", "-0", "0.0", "0e0", "0.000", "-0.0", "0E+5", "0e-7", "0.0e10"}[r.Intn(9)])
	}
	sign := ""
	if d.neg {
		sign = "-"
	}
	dig, exp := d.digits.String(), d.exp
	plain := func() string {
		if exp >= 0 {
			return dig + strings.Repeat("0", int(exp))
		}
		k := int(-exp)
		s := dig
		if len(s) <= k {
			s = strings.Repeat("0", k-len(s)+1) + s
		}
		return s[:len(s)-k] + "." + s[len(s)-k:]
	}
	expo := func(e int64) string {
		s := "e"
		if r.Intn(2) == 0 {
			s = "E"
		}
		if e >= 0 && r.Intn(2) == 0 {
			s += "+"
		}
		if r.Intn(6) == 0 {
			if e < 0 {
				return s + "-0" + strconv.FormatInt(-e, 10)
			}
			return s + "0" + strconv.FormatInt(e, 10)
		}
		return s + strconv.FormatInt(e, 10)
	}
	small := exp > -60 && exp < 60
	switch k := r.Intn(8); {
	case small && k < 4:
		p := plain()
		if k == 1 {
			z := strings.Repeat("0", 1+r.Intn(4))
			if strings.Contains(p, ".") {
				p += z
			} else {
				p += "." + z
			}
		}
		return json.Number(sign + p)
	case k == 4 || k == 5: // d.ddd e x
		s := dig[:1]
		if len(dig) > 1 {
			s += "." + dig[1:]
		}
		return json.Number(sign + s + expo(exp+int64(len(dig))-1))
	case k == 6: // 0.000ddd e x
		z := r.Intn(4)
		return json.Number(sign + "0." + strings.Repeat("0", z) + dig + expo(exp+int64(len(dig))+int64(z)))
	default: // ddd000 e x
		z := r.Intn(4)
		return json.Number(sign + dig + strings.Repeat("0", z) + expo(exp-int64(z)))
	}
}

func respell(r *rand.Rand, n json.Number) json.Number { return spell(r, parseDec(string(n))) }

func decOf(i *big.Int, exp int64) Dec {
	return parseDec(i.String() + "e" + strconv.FormatInt(exp, 10))
}

func addDec(a, b Dec) Dec {
	x, y := align(a, b)
	e := a.exp
	if a.zero {
		e = b.exp
	} else if !b.zero && b.exp < e {
		e = b.exp
	}
	return decOf(x.Add(x, y), e)
}

func mulDec(a, b Dec) Dec {
	if a.zero || b.zero {
		return Dec{zero: true, digits: new(big.Int)}
	}
	p := new(big.Int).Mul(a.digits, b.digits)
	if a.neg != b.neg {
		p.Neg(p)
	}
	return decOf(p, a.exp+b.exp)
}

func randDigits(r *rand.Rand, n int) *big.Int {
	s := make([]byte, n)
	for i := range s {
		s[i] = byte('0' + r.Intn(10))
	}
	x, _ := new(big.Int).SetString(string(s), 10)
	return x
}

// genDec is an interesting number
func genDec(r *rand.Rand) Dec {
	var i *big.Int
	exp := int64(0)
	switch r.Intn(12) {
	case 0, 1, 2:
		i = big.NewInt(int64(r.Intn(21) - 10))
	case 3:
		i = big.NewInt(int64(r.Intn(2001) - 1000))
	case 4: // around powers of two
		k := []uint{7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128, 1023, 1024}[r.Intn(19)]
		i = new(big.Int).Lsh(big.NewInt(1), k)
		i.Add(i, big.NewInt(int64(r.Intn(5)-2)))
	case 5: // around powers of ten
		i = pow10(int64(r.Intn(30)))
		i.Add(i, big.NewInt(int64(r.Intn(5)-2)))
	case 6, 7: // decimals
		i = randDigits(r, 1+r.Intn(6))
		exp = -int64(1 + r.Intn(6))
	case 8: // long decimals
		i = randDigits(r, 1+r.Intn(40))
		exp = -int64(r.Intn(45))
	case 9: // like 0.1, 0.01, 0.3, 1.1
		i = big.NewInt(int64(1 + r.Intn(30)))
		exp = -int64(1 + r.Intn(3))
	case 10: // far out
		i = randDigits(r, 1+r.Intn(4))
		exp = int64(r.Intn(900) - 450)
	default:
		i = big.NewInt(int64(litInt(r) + r.Intn(3) - 1))
	}
	if r.Intn(4) == 0 {
		i = new(big.Int).Neg(i)
	}
	return decOf(i, exp)
}

// genDecExtreme is far out, but within what math/big takes
func genDecExtreme(r *rand.Rand) Dec {
	return decOf(randDigits(r, 1+r.Intn(20)), int64(r.Intn(1400)-700))
}

func genNum(r *rand.Rand) json.Number { return spell(r, genDec(r)) }

// nearDec is close to (or at) a number
func nearDec(r *rand.Rand, d Dec) Dec {
	eps := decOf(big.NewInt(int64(1+r.Intn(9))), 0)
	switch r.Intn(10) {
	case 0, 1, 2:
		return d
	case 3:
		eps.exp = 0
	case 4: // in the last place
		eps.exp = d.exp
	case 5: // far below the last place
		eps.exp = d.exp - int64(1+r.Intn(30))
	case 6:
		eps.exp = -int64(1 + r.Intn(25))
	case 7:
		n := d
		if !n.zero {
			n.neg = !n.neg
		}
		return n
	case 8: // last place of a double
		if d.zero {
			eps.exp = -324
		} else {
			eps.exp = d.magnitude() - 17 - int64(r.Intn(4))
		}
	default:
		return genDec(r)
	}
	if r.Intn(2) == 0 {
		eps.neg = true
	}
	return addDec(d, eps)
}

// ---------- strings, keys, sizes ----------

var runePool = []rune("abcxyzABZ019 -_./~#%$\"'\\é漢ß\u0301\u200d😀👨𝒳\u0000\n\t\u2028\ufeffİ")

func genRune(r *rand.Rand) rune {
	switch r.Intn(10) {
	case 0:
		c := rune(0x80 + r.Intn(0x7ff-0x80))
		return c
	case 1:
		switch r.Intn(4) {
		case 0:
			return []rune("\U0001F3FB\U0001F3FD\U0001F3FF\ufe0f\u200d\U0001F1E6\U0001F1FF\U000E0067\u0300\u036f\u20e3\ufffd\ufffe\uffff\ue000\U0010ffff\U00010000\ufb01\u00ad\u115f\uff21")[r.Intn(20)]
		case 1:
			return rune(0x1F000 + r.Intn(0xfff))
		case 2:
			for {
				if c := rune(r.Intn(0x110000)); c < 0xd800 || c > 0xdfff {
					return c
				}
			}
		}
		return rune(0x10000 + r.Intn(0x0fff))
	case 2, 3, 4:
		return runePool[r.Intn(len(runePool))]
	}
	return rune('a' + r.Intn(4))
}

func genStringLen(r *rand.Rand, n int) string {
	b := make([]rune, n)
	mode := r.Intn(7)
	for i := range b {
		switch mode {
		case 4: // what has to be escaped somewhere
			b[i] = []rune("\"\\<>&\u2028\u2029\x00\x1f\x7f'{}%,:\n\t/~$#[]")[r.Intn(24)]
		case 0:
			b[i] = 'a'
		case 1:
			b[i] = '😀'
		case 2:
			b[i] = []rune("é漢")[r.Intn(2)]
		case 3:
			b[i] = []rune("👍\U0001F3FD\u200d👩\ufe0f\U0001F1E6e\u0301")[r.Intn(8)]
		default:
			b[i] = genRune(r)
		}
	}
	return string(b)
}

func genSize(r *rand.Rand) int {
	switch r.Intn(24) {
	case 0:
		return 7 + r.Intn(40)
	case 1:
		if n := litInt(r) + r.Intn(3) - 1; n <= 600 {
			return n
		}
	}
	return r.Intn(6)
}

func genBigSize(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return 100 + r.Intn(400)
	case 1:
		if n := litInt(r) + r.Intn(3) - 1; n <= 2100 {
			return n
		}
	case 2:
		n := 1 << uint(2+r.Intn(9))
		return n - 1 + r.Intn(3)
	}
	return 5 + r.Intn(60)
}

func genString(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		return litStr(r)
	case 2:
		return strSamples[r.Intn(len(strSamples))]
	case 3:
		return keyPool[r.Intn(len(keyPool))]
	}
	return genStringLen(r, genSize(r))
}

var strSamples = []string{"foo", "bar", "a", "b", "ab", "aab", "12", "123", "a1", "x-y", "x.y", "FOO", "true", "null", "1", "1.0", "0", "2018-01-01", "2018-02-30", "127.0.0.1", "::1", "a@b.c", "http://a/b", "/a/b", "a~b", "", " ", "é", "😀", "aaa", "foobar", "x\ny", "[]", "{}"}

var keyPool = []string{"a", "b", "c", "foo", "bar", "x", "y1", "x-1", "", "a.b", "a/b", "a~b", "a%b", "$ref", "$id", "id", "const", "enum", "properties", "type", "definitions", "required", "é", "😀", "0", "1", "(root)", "A", "a b", "length", "__proto__", "items", "default", "a\nb", "~0", "~1", "%41", "#", "A1", "field", "value"}

func genKey(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return genStringLen(r, 1+r.Intn(4))
	case 1:
		return litStr(r)
	case 2, 3, 4, 5, 6:
		return keyPool[r.Intn(8)]
	}
	return keyPool[r.Intn(len(keyPool))]
}

var patternPool = []string{"^a", "b$", "^[0-9]+$", "a|b", "x.y", "^.{3}$", "^$", "[0-9]{2}", "é", "^\\pL+$", "(?i)foo", "^(foo|bar)$", ".", "a*", "[^a]", "^x-", "\\.", "/", "~", "^\\S*$", "\\bfoo\\b", "^(?:a|b|c)+$", "(?s)^.*$", "^.$", "^..$", "o{2}", "^[a-c]", "1$", "\\$", "^\\w+$", "\\x{1F600}", "A", "^\\x00"}

func genPattern(r *rand.Rand) string {
	if r.Intn(5) == 0 {
		// compose
		atoms := []string{"a", "b", "[ab]", ".", "\\d", "é", "foo", "(a|b)", "[^b]", "😀"}
		q := []string{"", "", "*", "+", "?", "{2}", "{1,3}", "{0,2}"}
		s := ""
		if r.Intn(2) == 0 {
			s = "^"
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			s += atoms[r.Intn(len(atoms))] + q[r.Intn(len(q))]
		}
		if r.Intn(2) == 0 {
			s += "$"
		}
		return s
	}
	return patternPool[r.Intn(len(patternPool))]
}

// ---------- values ----------

func genScalar(r *rand.Rand) interface{} {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2, 3, 4:
		return genNum(r)
	}
	return genString(r)
}

func genValue(r *rand.Rand, depth int) interface{} {
	if depth <= 0 || r.Intn(10) < 5 {
		return genScalar(r)
	}
	if r.Intn(2) == 0 {
		l := make(arr, r.Intn(5))
		for i := range l {
			l[i] = genValue(r, depth-1)
		}
		return l
	}
	m := obj{}
	for i := r.Intn(5); i > 0; i-- {
		m[genKey(r)] = genValue(r, depth-1)
	}
	return m
}

// variant is a JSON-equal value with numbers spelled differently
func variant(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		return respell(r, x)
	case []interface{}:
		l := make(arr, len(x))
		for i := range x {
			l[i] = variant(r, x[i])
		}
		return l
	case map[string]interface{}:
		m := make(obj, len(x))
		for k, e := range x {
			m[k] = variant(r, e)
		}
		return m
	}
	return v
}

// nearMiss changes one small thing somewhere in a value
func nearMiss(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return []interface{}{false, json.Number("0"), "", "null", arr{}, obj{}}[r.Intn(6)]
	case bool:
		return []interface{}{!x, nil, num(b2i(x)), strconv.FormatBool(x), arr{x}}[r.Intn(5)]
	case json.Number:
		d := parseDec(string(x))
		if r.Intn(5) == 0 {
			return string(x)
		}
		if r.Intn(8) == 0 {
			return arr{x}
		}
		for i := 0; i < 20; i++ {
			n := nearDec(r, d)
			if !n.equal(d) {
				return spell(r, n)
			}
		}
		return nil
	case string:
		rs := []rune(x)
		switch r.Intn(6) {
		case 0:
			return x + string(genRune(r))
		case 1:
			if len(rs) > 0 {
				return string(rs[:len(rs)-1])
			}
		case 2:
			if u := strings.ToUpper(x); u != x {
				return u
			}
			if u := strings.ToLower(x); u != x {
				return u
			}
		case 3:
			if x == "true" || x == "null" || x == "1" {
				return mustParse(x)
			}
			return arr{x}
		case 4:
			if len(rs) > 0 {
				i := r.Intn(len(rs))
				rs[i]++
				return string(rs)
			}
		}
		return x + " "
	case []interface{}:
		l := clone(x).(arr)
		switch r.Intn(6) {
		case 0:
			return append(l, genScalar(r))
		case 1:
			if len(l) > 0 {
				return l[:len(l)-1]
			}
			return obj{}
		case 2:
			if len(l) > 1 {
				i := r.Intn(len(l) - 1)
				l[i], l[i+1] = l[i+1], l[i]
				return l
			}
		}
		if len(l) > 0 {
			i := r.Intn(len(l))
			l[i] = nearMiss(r, l[i])
			return l
		}
		return arr{nil}
	case map[string]interface{}:
		m := clone(x).(obj)
		ks := sortedKeys(m)
		if len(ks) == 0 {
			return []interface{}{arr{}, obj{"a": nil}, nil}[r.Intn(3)]
		}
		k := ks[r.Intn(len(ks))]
		switch r.Intn(6) {
		case 0:
			delete(m, k)
		case 1:
			m[genKey(r)+"+"] = m[k]
		case 2:
			v := m[k]
			delete(m, k)
			m[k+"'"] = v
		case 3:
			if len(ks) > 1 {
				k2 := ks[r.Intn(len(ks))]
				m[k], m[k2] = m[k2], m[k]
				break
			}
			fallthrough
		default:
			m[k] = nearMiss(r, m[k])
		}
		return m
	}
	return v
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---------- mixed schemas ----------

// Gen makes random schemas and documents that exercise them
type Gen struct {
	r     *rand.Rand
	draft int
	defs  []string // names of definitions references may use
	owner int      // index of the definition being generated, -1 for the root
	size  int      // schemas still allowed
	noApp bool
	fmts  []string
}

func refTo(r *rand.Rand, name string) string {
	esc := strings.ReplaceAll(strings.ReplaceAll(name, "~", "~0"), "/", "~1")
	return "#/definitions/" + pctEncode(r, esc)
}

// pctEncode writes a fragment with the characters that must be encoded, and sometimes others
func pctEncode(r *rand.Rand, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := alpha(c) || digit(c) || strings.IndexByte("-._~!$&'()*+,;=:@/", c) >= 0
		if !plain || (c != '/' && r.Intn(40) == 0) {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

// Schema makes a root schema, with definitions and references
func (g *Gen) Root() interface{} {
	r := g.r
	if g.draft >= D6 && r.Intn(60) == 0 {
		return r.Intn(2) == 0
	}
	g.size = 10 + r.Intn(25)
	g.owner = -1
	n := 0
	if r.Intn(2) == 0 {
		n = 1 + r.Intn(4)
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := genKey(r)
		if !seen[k] {
			seen[k] = true
			g.defs = append(g.defs, k)
		}
	}
	s, ok := g.Schema(3, false).(obj)
	if !ok {
		s = obj{}
	}
	if len(g.defs) > 0 {
		defs := obj{}
		for i, k := range g.defs {
			g.owner = i
			g.size += 3
			defs[k] = g.Schema(2, false)
		}
		if _, isRef := s["$ref"]; isRef && r.Intn(2) == 0 {
			s = obj{"allOf": arr{s}}
		}
		s["definitions"] = defs
	}
	return s
}

func (g *Gen) ref(desc bool) (interface{}, bool) {
	if len(g.defs) == 0 {
		if desc && g.owner == -1 && g.r.Intn(4) == 0 {
			return obj{"$ref": "#"}, true
		}
		return nil, false
	}
	lo := 0
	if !desc {
		lo = g.owner + 1
	}
	if lo >= len(g.defs) {
		return nil, false
	}
	s := obj{"$ref": refTo(g.r, g.defs[lo+g.r.Intn(len(g.defs)-lo)])}
	if g.r.Intn(5) == 0 {
		// siblings of $ref constrain nothing
		switch g.r.Intn(4) {
		case 0:
			s["type"] = "null"
		case 1:
			s["enum"] = arr{"never"}
		case 2:
			s["maxLength"] = num(0)
		default:
			s["not"] = obj{}
		}
	}
	return s, true
}

// Schema makes a schema. desc: the place is below the instance of the enclosing definition
func (g *Gen) Schema(depth int, desc bool) interface{} {
	r := g.r
	g.size--
	if g.draft >= D6 && r.Intn(14) == 0 {
		return r.Intn(3) > 0
	}
	if r.Intn(20) == 0 {
		return obj{}
	}
	if r.Intn(6) == 0 {
		if s, ok := g.ref(desc); ok {
			return s
		}
	}
	s := obj{}
	n := 1 + r.Intn(3)
	if r.Intn(8) == 0 {
		n = 4 + r.Intn(6)
	}
	if g.size <= 0 {
		depth = 0
	}
	for i := 0; i < n; i++ {
		g.keyword(s, depth, desc)
	}
	return s
}

func (g *Gen) count() json.Number {
	r := g.r
	n := r.Intn(5)
	if r.Intn(12) == 0 {
		n = genSize(r)
	}
	if r.Intn(10) == 0 {
		return spell(r, parseDec(strconv.Itoa(n)))
	}
	return num(n)
}

func (g *Gen) typ() interface{} {
	r := g.r
	all := []string{"array", "boolean", "integer", "number", "null", "object", "string"}
	if r.Intn(2) == 0 {
		return all[r.Intn(7)]
	}
	r.Shuffle(7, func(i, j int) { all[i], all[j] = all[j], all[i] })
	l := arr{}
	for _, t := range all[:1+r.Intn(7)] {
		l = append(l, t)
	}
	return l
}

func (g *Gen) schemas(n, depth int, desc bool) arr {
	l := arr{}
	for i := 0; i < n; i++ {
		l = append(l, g.Schema(depth, desc))
	}
	return l
}

func (g *Gen) few() int {
	if g.r.Intn(25) == 0 {
		return 4 + g.r.Intn(8)
	}
	return 1 + g.r.Intn(3)
}

func fixRange(s obj, lo, hi string) {
	a, ok1 := countOf(s[lo])
	b, ok2 := countOf(s[hi])
	if ok1 && ok2 && a > b {
		s[lo], s[hi] = s[hi], s[lo]
	}
}

func (g *Gen) keyword(s obj, depth int, desc bool) {
	r := g.r
	pick := r.Intn(34)
	if depth <= 0 && pick >= 17 {
		pick = r.Intn(17)
	}
	if g.noApp && pick >= 26 {
		pick = r.Intn(26)
	}
	switch pick {
	case 0, 1, 2:
		s["type"] = g.typ()
	case 3:
		s["minimum"] = genNum(r)
	case 4:
		s["maximum"] = genNum(r)
	case 5:
		k := []string{"Minimum", "Maximum"}[r.Intn(2)]
		if g.draft == D4 || (g.draft == DH && r.Intn(2) == 0) {
			if _, ok := s[strings.ToLower(k)]; !ok {
				s[strings.ToLower(k)] = genNum(r)
			}
			s["exclusive"+k] = r.Intn(3) > 0
		} else {
			s["exclusive"+k] = genNum(r)
		}
	case 6:
		d := genDec(r)
		d.neg = false
		if d.zero || d.exp < -100 || d.exp > 100 {
			d = parseDec("0.5")
		}
		s["multipleOf"] = spell(r, d)
	case 7:
		s["minLength"] = g.count()
		fixRange(s, "minLength", "maxLength")
	case 8:
		s["maxLength"] = g.count()
		fixRange(s, "minLength", "maxLength")
	case 9:
		s["pattern"] = genPattern(r)
	case 10:
		if r.Intn(2) == 0 {
			s["minItems"] = g.count()
		} else {
			s["maxItems"] = g.count()
		}
	case 11:
		s["uniqueItems"] = r.Intn(5) > 0
	case 12:
		if r.Intn(2) == 0 {
			s["minProperties"] = g.count()
		} else {
			s["maxProperties"] = g.count()
		}
		fixRange(s, "minProperties", "maxProperties")
	case 13:
		l, seen := arr{}, map[string]bool{}
		for i := r.Intn(4); i >= 0; i-- {
			k := genKey(r)
			if !seen[k] {
				seen[k] = true
				l = append(l, k)
			}
		}
		s["required"] = l
	case 14:
		l, seen := arr{}, map[string]bool{}
		n := 1 + r.Intn(5)
		if r.Intn(30) == 0 {
			n = genBigSize(r)
		}
		for i := 0; i < n; i++ {
			v := genValue(r, 1)
			if k := eqKey(v); !seen[k] {
				seen[k] = true
				l = append(l, v)
			}
		}
		s["enum"] = l
	case 15:
		if g.draft >= D6 {
			s["const"] = genValue(r, 2)
		} else {
			s["const"] = "inactive"
		}
	case 16:
		switch r.Intn(4) {
		case 0:
			f := []string{"date", "ipv4", "ipv6", "uuid", "json-pointer", "regex", "hostname", "unknown-format", "time"}
			s["format"] = f[r.Intn(len(f))]
		case 1:
			s["title"], s["description"] = genString(r), genString(r)
		case 2:
			s[[]string{"default", "examples", "x-any", "$comment", "readOnly", "Type", "maxlength"}[r.Intn(7)]] = genScalar(r)
		default:
			// keywords of later drafts constrain nothing, whatever they hold
			if g.draft < D7 {
				s["if"], s["then"] = obj{}, []interface{}{obj{"enum": arr{"x"}}, num(3), "y"}[r.Intn(3)]
			}
			if g.draft < D6 {
				s["contains"] = []interface{}{obj{"enum": arr{"x"}}, num(3)}[r.Intn(2)]
				s["propertyNames"] = []interface{}{obj{"maxLength": num(0)}, nil}[r.Intn(2)]
			}
		}
	case 17, 18:
		m, ok := s["properties"].(obj)
		if !ok {
			m = obj{}
		}
		for i := g.few(); i > 0; i-- {
			m[genKey(r)] = g.Schema(depth-1, true)
		}
		s["properties"] = m
	case 19:
		m, ok := s["patternProperties"].(obj)
		if !ok {
			m = obj{}
		}
		for i := 1 + r.Intn(2); i > 0; i-- {
			m[genPattern(r)] = g.Schema(depth-1, true)
		}
		s["patternProperties"] = m
	case 20:
		if r.Intn(2) == 0 {
			s["additionalProperties"] = r.Intn(3) == 0
		} else {
			s["additionalProperties"] = g.objSchema(depth-1, true)
		}
	case 21:
		s["items"] = g.Schema(depth-1, true)
	case 22:
		s["items"] = g.schemas(g.few(), depth-1, true)
		switch r.Intn(3) {
		case 0:
			s["additionalItems"] = r.Intn(3) == 0
		case 1:
			s["additionalItems"] = g.objSchema(depth-1, true)
		}
	case 23:
		if g.draft >= D6 {
			s["contains"] = g.Schema(depth-1, true)
		}
	case 24:
		if g.draft >= D6 {
			// names are strings: mostly string schemas
			if r.Intn(2) == 0 {
				s["propertyNames"] = obj{"pattern": genPattern(r)}
			} else {
				s["propertyNames"] = []interface{}{obj{"maxLength": num(r.Intn(5))}, obj{"minLength": num(r.Intn(3))}, obj{"enum": arr{"a", "b", "foo", "x", ""}}, obj{"type": "string"}, true}[r.Intn(5)]
			}
		}
	case 25:
		if r.Intn(3) == 0 {
			s["additionalItems"] = r.Intn(2) == 0 // without effect unless items is a list
		}
		s["uniqueItems"] = true
	case 26, 27:
		s["allOf"] = g.schemas(g.few(), depth-1, desc)
	case 28, 29:
		s["anyOf"] = g.schemas(g.few(), depth-1, desc)
	case 30:
		s["oneOf"] = g.schemas(g.few(), depth-1, desc)
	case 31:
		s["not"] = g.Schema(depth-1, desc)
	case 32:
		if g.draft >= D7 {
			s["if"] = g.Schema(depth-1, desc)
			if r.Intn(4) > 0 {
				s["then"] = g.Schema(depth-1, desc)
			}
			if r.Intn(3) > 0 {
				s["else"] = g.Schema(depth-1, desc)
			}
			if r.Intn(12) == 0 {
				delete(s, "if")
			}
		}
	case 33:
		m := obj{}
		for i := 1 + r.Intn(2); i > 0; i-- {
			if r.Intn(2) == 0 {
				m[genKey(r)] = arr{keyPool[r.Intn(5)], keyPool[5+r.Intn(5)]}[:1+r.Intn(2)]
				if r.Intn(4) == 0 {
					m[genKey(r)] = someKeys(r, 1+r.Intn(len(keyPool)))
				}
			} else {
				m[genKey(r)] = g.Schema(depth-1, desc)
			}
		}
		s["dependencies"] = m
	}
}

func (g *Gen) objSchema(depth int, desc bool) interface{} {
	for i := 0; i < 20; i++ {
		if s, ok := g.Schema(depth, desc).(obj); ok {
			return s
		}
	}
	return obj{}
}

// ---------- documents directed by a schema ----------

// DocGen makes documents for a schema
type DocGen struct {
	r    *rand.Rand
	root interface{}
	n    int
}

func (d *DocGen) deref(s interface{}) interface{} {
	for i := 0; i < 5; i++ {
		m, ok := s.(obj)
		if !ok {
			return s
		}
		ref, ok := m["$ref"].(string)
		if !ok {
			return s
		}
		if ref == "#" {
			s = d.root
			continue
		}
		u := newUniverse(false, DH)
		u.docs[""] = &MDoc{Root: d.root}
		n, ok := u.Resolve("", ref, DH)
		if !ok {
			return s
		}
		s = n.V
	}
	return s
}

// Doc makes a document that tends to satisfy the schema
func (d *DocGen) Doc(s interface{}, depth int) interface{} {
	r := d.r
	d.n++
	if d.n > 3000 || depth < -3 {
		return genScalar(r)
	}
	s = d.deref(s)
	m, ok := s.(obj)
	if !ok || r.Intn(14) == 0 {
		return genValue(r, 2)
	}
	if c, ok := m["const"]; ok && r.Intn(4) > 0 {
		return variant(r, c)
	}
	if e, ok := m["enum"].(arr); ok && len(e) > 0 && r.Intn(4) > 0 {
		return variant(r, e[r.Intn(len(e))])
	}
	// sometimes follow an applicator instead of the keywords
	if r.Intn(3) == 0 {
		var subs arr
		for _, k := range []string{"allOf", "anyOf", "oneOf"} {
			if l, ok := m[k].(arr); ok {
				subs = append(subs, l...)
			}
		}
		for _, k := range []string{"if", "then", "else"} {
			if x, ok := m[k]; ok && isSchemaValue(x) {
				subs = append(subs, x)
			}
		}
		if deps, ok := m["dependencies"].(obj); ok {
			for _, x := range deps {
				if isSchemaValue(x) {
					subs = append(subs, x)
				}
			}
		}
		if len(subs) > 0 {
			return d.Doc(subs[r.Intn(len(subs))], depth-1)
		}
	}
	types := typeList(m["type"])
	t := ""
	if len(types) > 0 && r.Intn(12) > 0 {
		t = types[r.Intn(len(types))]
	} else {
		t = d.infer(m)
	}
	switch t {
	case "null":
		return nil
	case "boolean":
		return r.Intn(2) == 0
	case "integer", "number":
		return d.number(m, t == "integer")
	case "string":
		return d.str(m)
	case "array":
		return d.array(m, depth)
	case "object":
		return d.object(m, depth)
	}
	return genValue(r, 2)
}

func (d *DocGen) infer(m obj) string {
	var c []string
	for k := range m {
		switch k {
		case "minimum", "maximum", "multipleOf", "exclusiveMinimum", "exclusiveMaximum":
			c = append(c, "number")
		case "minLength", "maxLength", "pattern", "format":
			c = append(c, "string")
		case "items", "additionalItems", "minItems", "maxItems", "uniqueItems", "contains":
			c = append(c, "array")
		case "properties", "patternProperties", "additionalProperties", "propertyNames", "required", "minProperties", "maxProperties", "dependencies":
			c = append(c, "object")
		}
	}
	if len(c) == 0 {
		return ""
	}
	// map order must not leak into the case
	cnt := map[string]int{}
	for _, x := range c {
		cnt[x]++
	}
	l := []string{}
	for _, x := range []string{"array", "number", "object", "string"} {
		for i := 0; i < cnt[x]; i++ {
			l = append(l, x)
		}
	}
	return l[d.r.Intn(len(l))]
}

func (d *DocGen) number(m obj, integer bool) interface{} {
	r := d.r
	var c []Dec
	for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
		if n, ok := m[k].(json.Number); ok {
			c = append(c, parseDec(string(n)))
		}
	}
	if n, ok := m["multipleOf"].(json.Number); ok {
		c = append(c, mulDec(parseDec(string(n)), decOf(big.NewInt(int64(r.Intn(2000)-1000)), 0)))
	}
	var x Dec
	if len(c) > 0 {
		x = nearDec(r, c[r.Intn(len(c))])
	} else {
		x = genDec(r)
	}
	if integer && !x.isInt() && r.Intn(8) > 0 {
		x.exp = int64(r.Intn(3))
		if x.digits.BitLen() > 80 {
			x = decOf(big.NewInt(int64(r.Intn(100))), 0)
		}
	}
	return spell(r, x)
}

func (d *DocGen) str(m obj) interface{} {
	r := d.r
	if f, ok := m["format"].(string); ok && r.Intn(2) == 0 {
		return genFormatString(r, f)
	}
	for _, k := range []string{"minLength", "maxLength"} {
		if c, ok := countOf(m[k]); ok && c < 3000 && r.Intn(2) == 0 {
			n := int(c) + r.Intn(3) - 1
			if n < 0 {
				n = 0
			}
			return genStringLen(r, n)
		}
	}
	return genString(r)
}

func (d *DocGen) array(m obj, depth int) interface{} {
	r := d.r
	n := r.Intn(5)
	if items, ok := m["items"].(arr); ok {
		n = len(items) + r.Intn(4) - 1
	}
	for _, k := range []string{"minItems", "maxItems"} {
		if c, ok := countOf(m[k]); ok && c < 700 && r.Intn(2) == 0 {
			n = int(c) + r.Intn(3) - 1
		}
	}
	if r.Intn(60) == 0 {
		n = genBigSize(r)
	}
	if n < 0 {
		n = 0
	}
	l := arr{}
	for i := 0; i < n; i++ {
		var s interface{} = true
		switch items := m["items"].(type) {
		case map[string]interface{}:
			s = items
		case []interface{}:
			if i < len(items) {
				s = items[i]
			} else if ai, ok := m["additionalItems"].(obj); ok {
				s = ai
			}
		}
		if c, ok := m["contains"]; ok && r.Intn(3) == 0 && isSchemaValue(c) {
			s = c
		}
		if len(l) > 0 && r.Intn(12) == 0 {
			l = append(l, variant(r, l[r.Intn(len(l))]))
			continue
		}
		if n > 40 && s == true {
			l = append(l, num(i))
			continue
		}
		l = append(l, d.Doc(s, depth-1))
	}
	return l
}

func (d *DocGen) object(m obj, depth int) interface{} {
	r := d.r
	o := obj{}
	props, _ := m["properties"].(obj)
	pats, _ := m["patternProperties"].(obj)
	put := func(k string) {
		var s interface{} = true
		if p, ok := props[k]; ok {
			s = p
		} else {
			for _, p := range sortedKeys(pats) {
				if c := re(p); c != nil && c.MatchString(k) {
					s = pats[p]
				}
			}
			if s == true {
				if ap, ok := m["additionalProperties"].(obj); ok {
					s = ap
				}
			}
		}
		o[k] = d.Doc(s, depth-1)
	}
	for _, k := range sortedKeys(props) {
		if r.Intn(4) > 0 {
			put(k)
		}
	}
	if l, ok := m["required"].(arr); ok {
		for _, k := range l {
			if r.Intn(6) > 0 {
				if s, ok := k.(string); ok {
					put(s)
				}
			}
		}
	}
	if deps, ok := m["dependencies"].(obj); ok {
		for _, k := range sortedKeys(deps) {
			if r.Intn(2) == 0 {
				put(k)
				if l, ok := deps[k].(arr); ok {
					for _, x := range l {
						if s, ok := x.(string); ok && r.Intn(4) > 0 {
							put(s)
						}
					}
				}
			}
		}
	}
	if len(pats) > 0 || r.Intn(3) == 0 {
		for i := r.Intn(4); i > 0; i-- {
			put(genKey(r))
		}
	}
	for _, k := range []string{"minProperties", "maxProperties"} {
		if c, ok := countOf(m[k]); ok && c < 300 && r.Intn(2) == 0 {
			want := int(c) + r.Intn(3) - 1
			for i := 0; len(o) < want && i < 400; i++ {
				o[fmt.Sprintf("k%d", i)] = num(i)
			}
		}
	}
	if r.Intn(80) == 0 {
		for i := genBigSize(r); i > 0; i-- {
			o[fmt.Sprintf("n%d", i)] = genScalar(r)
		}
	}
	return o
}

// mutateDoc changes a document somewhere
func mutateDoc(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) > 0 && r.Intn(3) > 0 {
			m := clone(x).(obj)
			ks := sortedKeys(m)
			k := ks[r.Intn(len(ks))]
			switch r.Intn(5) {
			case 0:
				delete(m, k)
			case 1:
				m[genKey(r)] = genValue(r, 1)
			default:
				m[k] = mutateDoc(r, m[k])
			}
			return m
		}
	case []interface{}:
		if len(x) > 0 && r.Intn(3) > 0 {
			l := clone(x).(arr)
			i := r.Intn(len(l))
			switch r.Intn(6) {
			case 0:
				return append(l[:i], l[i+1:]...)
			case 1:
				return append(l, variant(r, l[i]))
			case 2:
				return append(l, genValue(r, 1))
			default:
				l[i] = mutateDoc(r, l[i])
			}
			return l
		}
	}
	if r.Intn(3) == 0 {
		return genValue(r, 2)
	}
	return nearMiss(r, v)
}

// docsFor makes n documents for a schema
func docsFor(r *rand.Rand, schema interface{}, n int) []interface{} {
	l := make([]interface{}, 0, n)
	for i := 0; i < n; i++ {
		d := &DocGen{r: r, root: schema}
		v := d.Doc(schema, 3)
		for k := r.Intn(3); k > 0; k-- {
			v = mutateDoc(r, v)
		}
		l = append(l, v)
	}
	return l
}

// ---------- placing a schema somewhere ----------

// Placed is a schema inside another one, and how to put a document where it applies
type Placed struct {
	S interface{}
	F func(interface{}) interface{}
}

// place embeds a schema at a random position of a bigger schema, n levels deep
func place(r *rand.Rand, draft int, s interface{}, n int) Placed {
	p := Placed{S: s, F: func(v interface{}) interface{} { return v }}
	for ; n > 0; n-- {
		p = place1(r, draft, p)
	}
	return p
}

func place1(r *rand.Rand, draft int, p Placed) Placed {
	in := p.F
	s := p.S
	then := func(f func(interface{}) interface{}) func(interface{}) interface{} {
		return func(v interface{}) interface{} { return f(in(v)) }
	}
	k := genKey(r)
	isObj := false
	if _, ok := s.(obj); ok {
		isObj = true
	}
	pad := r.Intn(4)
	if r.Intn(20) == 0 {
		pad = genSize(r)
	}
	switch r.Intn(17) {
	case 0, 1:
		o := obj{"properties": obj{k: s}}
		if r.Intn(3) == 0 {
			o["required"] = arr{k}
		}
		if r.Intn(4) == 0 {
			o["additionalProperties"] = false
		}
		return Placed{o, then(func(v interface{}) interface{} { return obj{k: v} })}
	case 2:
		return Placed{obj{"patternProperties": obj{"^x": s}}, then(func(v interface{}) interface{} { return obj{"x" + k: v, "a": nil} })}
	case 3:
		if !isObj {
			break
		}
		return Placed{obj{"properties": obj{"a": obj{}}, "additionalProperties": s}, then(func(v interface{}) interface{} { return obj{"a": num(1), k + "!": v} })}
	case 4, 5:
		return Placed{obj{"items": s}, then(func(v interface{}) interface{} {
			l := arr{}
			for i := 0; i <= pad%3; i++ {
				l = append(l, v)
			}
			return l
		})}
	case 6:
		l := arr{}
		for i := 0; i < pad; i++ {
			l = append(l, obj{})
		}
		l = append(l, s)
		o := obj{"items": l}
		if r.Intn(2) == 0 {
			o["additionalItems"] = false
		}
		return Placed{o, then(func(v interface{}) interface{} {
			d := arr{}
			for i := 0; i < pad; i++ {
				d = append(d, nil)
			}
			return append(d, v)
		})}
	case 7:
		if !isObj {
			break
		}
		l := arr{}
		for i := 0; i <= pad; i++ {
			l = append(l, obj{})
		}
		return Placed{obj{"items": l, "additionalItems": s}, then(func(v interface{}) interface{} {
			d := arr{}
			for i := 0; i <= pad; i++ {
				d = append(d, nil)
			}
			return append(d, v)
		})}
	case 8, 9:
		l := arr{}
		for i := 0; i < pad; i++ {
			l = append(l, obj{})
		}
		i := r.Intn(len(l) + 1)
		l = append(l[:i:i], append(arr{s}, l[i:]...)...)
		return Placed{obj{"allOf": l}, in}
	case 10:
		l := arr{}
		for i := 0; i < pad; i++ {
			l = append(l, obj{"not": obj{}})
		}
		i := r.Intn(len(l) + 1)
		l = append(l[:i:i], append(arr{s}, l[i:]...)...)
		return Placed{obj{[]string{"anyOf", "oneOf"}[r.Intn(2)]: l}, in}
	case 11:
		return Placed{obj{"not": obj{"not": s}}, in}
	case 12:
		return Placed{obj{"definitions": obj{k: s}, "allOf": arr{obj{"$ref": "@" + k}}}, in}
	case 13:
		if draft >= D7 {
			if r.Intn(2) == 0 {
				return Placed{obj{"if": obj{}, "then": s, "else": false}, in}
			}
			return Placed{obj{"if": obj{"not": obj{}}, "else": s, "then": false}, in}
		}
	case 14:
		if draft >= D6 {
			return Placed{obj{"contains": s}, then(func(v interface{}) interface{} { return arr{v} })}
		}
	case 15:
		return Placed{obj{"dependencies": obj{"trigger": obj{"properties": obj{k: s}}}}, then(func(v interface{}) interface{} { return obj{"trigger": nil, k: v} })}
	case 16:
		return Placed{obj{"not": s}, in}
	}
	return Placed{obj{"allOf": arr{s}}, in}
}

// fixPlacedRefs turns the markers place1 leaves into references from the root. Definitions are hoisted
func hoist(r *rand.Rand, s interface{}) interface{} {
	defs := obj{}
	n := 0
	var walk func(v interface{}) interface{}
	walk = func(v interface{}) interface{} {
		m, ok := v.(obj)
		if !ok {
			if l, ok := v.(arr); ok {
				out := make(arr, len(l))
				for i := range l {
					out[i] = walk(l[i])
				}
				return out
			}
			return v
		}
		if d, ok := m["definitions"].(obj); ok && len(d) == 1 && len(m) == 2 {
			if l, ok := m["allOf"].(arr); ok && len(l) == 1 {
				if ro, ok := l[0].(obj); ok {
					if ref, ok := ro["$ref"].(string); ok && strings.HasPrefix(ref, "@") {
						k := ref[1:]
						name := k
						if _, taken := defs[name]; taken {
							n++
							name = fmt.Sprintf("%s%d", k, n)
						}
						defs[name] = nil
						defs[name] = walk(d[k])
						return obj{"$ref": refTo(r, name)}
					}
				}
			}
		}
		out := obj{}
		for _, k := range sortedKeys(m) {
			switch k {
			case "properties", "patternProperties", "dependencies", "definitions":
				if mm, ok := m[k].(obj); ok {
					o := obj{}
					for _, kk := range sortedKeys(mm) {
						o[kk] = walk(mm[kk])
					}
					out[k] = o
					continue
				}
				out[k] = m[k]
			case "items", "additionalItems", "additionalProperties", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "contains", "propertyNames":
				out[k] = walk(m[k])
			default:
				out[k] = m[k]
			}
		}
		return out
	}
	w := walk(s)
	if len(defs) > 0 {
		root, ok := w.(obj)
		if !ok {
			return w
		}
		if _, isRef := root["$ref"]; isRef {
			root = obj{"allOf": arr{root}}
		}
		if old, ok := root["definitions"].(obj); ok {
			for k, v := range old {
				if _, taken := defs[k]; !taken {
					defs[k] = v
				}
			}
		}
		root["definitions"] = defs
		return root
	}
	return w
}

// someKeys returns n different names
func someKeys(r *rand.Rand, n int) arr {
	l := arr{}
	for _, i := range r.Perm(len(keyPool)) {
		if len(l) < n {
			l = append(l, keyPool[i])
		}
	}
	return l
}
