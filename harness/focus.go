package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"regexp/syntax"
	"strconv"
	"strings"
)

// focusFn makes a schema about one group of keywords together with documents at its boundaries
type focusFn func(r *rand.Rand, draft int) (schema obj, docs []interface{})

var notNumbers = []interface{}{nil, true, false, "", "5", "0", "1e400", "abc", arr{}, arr{json.Number("5")}, obj{}, obj{"a": json.Number("7")}}

// ---------- C01 numbers ----------

func limitDec(r *rand.Rand) Dec {
	switch r.Intn(40) {
	case 0, 1, 2:
		return genDecExtreme(r)
	case 3:
		if r.Intn(20) == 0 {
			return decOf(randDigits(r, 1+r.Intn(5)), int64(r.Intn(12000)-6000))
		}
	}
	return genDec(r)
}

func focusNumbers(r *rand.Rand, draft int) (obj, []interface{}) {
	s := obj{}
	var anchors []Dec
	var mult *Dec
	if r.Intn(2) == 0 {
		s["type"] = []interface{}{"integer", "integer", "number", arr{"integer", "string"}, arr{"number", "null"}, arr{"integer", "number"}, arr{"array", "integer"}}[r.Intn(7)]
	}
	for i := r.Intn(3); i >= 0; i-- {
		d := limitDec(r)
		if len(anchors) > 0 && r.Intn(2) == 0 {
			d = nearDec(r, anchors[0]) // limits close to each other
		}
		switch r.Intn(6) {
		case 0:
			s["minimum"] = spell(r, d)
		case 1:
			s["maximum"] = spell(r, d)
		case 2, 3:
			k := []string{"Minimum", "Maximum"}[r.Intn(2)]
			if draft == D4 || (draft == DH && r.Intn(2) == 0) {
				if old, ok := s[strings.ToLower(k)].(json.Number); ok {
					d = parseDec(string(old))
				} else {
					s[strings.ToLower(k)] = spell(r, d)
				}
				s["exclusive"+k] = r.Intn(4) > 0
			} else {
				s["exclusive"+k] = spell(r, d)
			}
		default:
			m := d
			m.neg = false
			if m.zero {
				m = parseDec("3")
			}
			switch r.Intn(4) {
			case 0:
				m = decOf(big.NewInt(int64(1+r.Intn(12))), 0)
			case 1:
				m = decOf(big.NewInt(int64(1+r.Intn(99))), -int64(1+r.Intn(8)))
			}
			if m.zero {
				m = parseDec("3")
			}
			s["multipleOf"] = spell(r, m)
			mult = &m
			continue
		}
		anchors = append(anchors, d)
	}
	var docs []interface{}
	add := func(d Dec) { docs = append(docs, spell(r, d)) }
	for _, a := range anchors {
		add(a)
		for i := 0; i < 3; i++ {
			add(nearDec(r, a))
		}
	}
	if mult != nil {
		for i := 0; i < 4; i++ {
			var k *big.Int
			switch r.Intn(3) {
			case 0:
				k = big.NewInt(int64(r.Intn(40) - 20))
			case 1:
				k = randDigits(r, 1+r.Intn(30))
			default:
				k = new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(90)))
			}
			x := mulDec(*mult, decOf(k, 0))
			if r.Intn(3) == 0 {
				x = nearDec(r, x)
			}
			if r.Intn(6) == 0 && !mult.zero { // half a step off
				x = addDec(x, mulDec(*mult, parseDec("0.5")))
			}
			add(x)
		}
	}
	for i := 0; i < 3; i++ {
		switch r.Intn(4) {
		case 0:
			x := genDec(r)
			x.exp = int64(r.Intn(3))
			add(x)
		case 1:
			add(nearDec(r, parseDec(strconv.Itoa(r.Intn(5)))))
		default:
			add(limitDec(r))
		}
	}
	docs = append(docs, notNumbers[r.Intn(len(notNumbers))])
	return s, docs
}

// ---------- C02 strings ----------

// matchGen writes a string that a regular expression matches
func matchGen(r *rand.Rand, p string) string {
	x, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return ""
	}
	var b strings.Builder
	var walk func(x *syntax.Regexp)
	rep := func(x *syntax.Regexp, lo, hi int) {
		n := lo
		if hi < 0 {
			hi = lo + 3
		}
		if hi > lo {
			n += r.Intn(hi - lo + 1)
		}
		for i := 0; i < n; i++ {
			walk(x)
		}
	}
	walk = func(x *syntax.Regexp) {
		switch x.Op {
		case syntax.OpLiteral:
			for _, c := range x.Rune {
				if x.Flags&syntax.FoldCase != 0 && r.Intn(2) == 0 {
					b.WriteString(strings.ToUpper(string(c)))
				} else {
					b.WriteRune(c)
				}
			}
		case syntax.OpCharClass:
			if len(x.Rune) >= 2 {
				i := r.Intn(len(x.Rune)/2) * 2
				lo, hi := x.Rune[i], x.Rune[i+1]
				c := lo
				if hi > lo {
					d := hi - lo
					if d > 60 {
						d = 60
					}
					c += rune(r.Intn(int(d) + 1))
				}
				if c >= 0xd800 && c < 0xe000 {
					c = 0xe000
				}
				b.WriteRune(c)
			}
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			c := genRune(r)
			if c == '\n' {
				c = 'n'
			}
			b.WriteRune(c)
		case syntax.OpCapture, syntax.OpConcat:
			for _, s := range x.Sub {
				walk(s)
			}
		case syntax.OpAlternate:
			walk(x.Sub[r.Intn(len(x.Sub))])
		case syntax.OpStar:
			rep(x.Sub[0], 0, 3)
		case syntax.OpPlus:
			rep(x.Sub[0], 1, 3)
		case syntax.OpQuest:
			rep(x.Sub[0], 0, 1)
		case syntax.OpRepeat:
			rep(x.Sub[0], x.Min, x.Max)
		}
	}
	walk(x)
	return b.String()
}

func stringsAround(r *rand.Rand, s obj) []string {
	var l []string
	for _, k := range []string{"minLength", "maxLength"} {
		if c, ok := countOf(s[k]); ok && c < 5000 {
			for _, n := range []int{int(c) - 1, int(c), int(c) + 1} {
				if n >= 0 {
					l = append(l, genStringLen(r, n))
				}
			}
			// as many bytes or UTF-16 units as code points allowed
			if c > 1 {
				l = append(l, strings.Repeat("é", int(c)/2)+strings.Repeat("a", int(c)%2), strings.Repeat("😀", int(c)), strings.Repeat("e\u0301", int(c)/2))
			}
		}
	}
	if p, ok := s["pattern"].(string); ok {
		for i := 0; i < 3; i++ {
			m := matchGen(r, p)
			switch r.Intn(5) {
			case 0:
				m = genString(r) + m
			case 1:
				m = m + genString(r)
			case 2:
				m = genStringLen(r, r.Intn(4)) + m + genStringLen(r, r.Intn(4))
			case 3:
				m = []string{"\n", "x\n", " "}[r.Intn(3)] + m + []string{"\n", "\nx", " "}[r.Intn(3)]
			}
			l = append(l, m)
			if x, ok := nearMiss(r, m).(string); ok {
				l = append(l, x)
			}
		}
	}
	l = append(l, genString(r))
	return l
}

func focusStrings(r *rand.Rand, draft int) (obj, []interface{}) {
	if r.Intn(150) == 0 {
		return longString(r, draft)
	}
	s := obj{}
	size := func() int {
		if r.Intn(20) == 0 {
			return genBigSize(r)
		}
		return genSize(r)
	}
	cnt := func(n int) json.Number {
		if r.Intn(6) == 0 {
			return spell(r, parseDec(strconv.Itoa(n)))
		}
		return num(n)
	}
	if r.Intn(3) == 0 {
		s["type"] = []interface{}{"string", arr{"string", "null"}, arr{"string", "number"}}[r.Intn(3)]
	}
	switch r.Intn(5) {
	case 0:
		s["minLength"] = cnt(size())
	case 1:
		s["maxLength"] = cnt(size())
	case 2:
		n := size()
		s["minLength"], s["maxLength"] = cnt(n), cnt(n+r.Intn(3))
	case 3:
		s["pattern"] = genPattern(r)
	default:
		s["pattern"] = genPattern(r)
		s[[]string{"minLength", "maxLength"}[r.Intn(2)]] = cnt(size())
	}
	if r.Intn(60) == 0 {
		s["maxLength"] = json.Number("9223372036854775807")
	}
	strs := stringsAround(r, s)
	if draft >= D6 && r.Intn(4) == 0 {
		delete(s, "type")
		var docs []interface{}
		for _, x := range strs {
			docs = append(docs, obj{x: nil})
		}
		o := obj{}
		for _, x := range strs {
			o[x] = num(1)
		}
		docs = append(docs, o, obj{}, arr{strs[0]}, strs[0], nil)
		return obj{"propertyNames": s}, docs
	}
	var docs []interface{}
	for _, x := range strs {
		docs = append(docs, x)
	}
	for i := 0; i < 2; i++ {
		docs = append(docs, []interface{}{nil, true, json.Number("12345"), json.Number("0.25"), arr{}, arr{"a", "b", "c"}, obj{}, obj{"abc": "def"}, false}[r.Intn(9)])
	}
	return s, docs
}

// ---------- C03 equality ----------

var eqTraps = []interface{}{nil, true, false, json.Number("0"), json.Number("1"), "", "0", "1", "true", "false", "null", arr{}, obj{}, arr{nil}, arr{json.Number("0")}, arr{json.Number("1")}, arr{false}, arr{true}, arr{""}, obj{"": nil}, obj{"a": nil}, obj{"a": false}, obj{"a": json.Number("0")}, arr{arr{}}, arr{obj{}}, "[]", "{}", "<", "\\u003c", "&", "\u2028", "\\u2028", "\ufffd", "é", "e\u0301", "1.0", "1e0", json.Number("-1"), json.Number("1e100"), json.Number("9007199254740993"), json.Number("9007199254740992"), json.Number("0.1"), json.Number("0.1000000000000000055511151231257827"), json.Number("1e400"), json.Number("1e401"), json.Number("1e-400"), json.Number("123456789012345678901234567890"), json.Number("123456789012345678901234567891"), "map[]", "nil", "\\", "\\\\", "a\\", "\"", "a\"", "\\\"", "a\n", "\x00", "a\x00", "\ta", " a", "a ", "\u007f", "%", "%s", "{{.}}", "'", ","}

func eqValue(r *rand.Rand) interface{} {
	if r.Intn(40) == 0 {
		// far down
		v := eqTraps[r.Intn(len(eqTraps))]
		kind := r.Intn(3)
		for i := 4 + r.Intn(40); i > 0; i-- {
			if kind == 0 || kind == 2 && r.Intn(2) == 0 {
				v = arr{v}
			} else {
				v = obj{"a": v}
			}
		}
		return v
	}
	switch r.Intn(5) {
	case 0, 1:
		return eqTraps[r.Intn(len(eqTraps))]
	case 2:
		return genNum(r)
	}
	return genValue(r, 3)
}

func focusEquality(r *rand.Rand, draft int) (obj, []interface{}) {
	var docs []interface{}
	k := r.Intn(3)
	if k == 0 && draft < D6 {
		k = 1
	}
	switch k {
	case 0:
		c := eqValue(r)
		docs = append(docs, c, variant(r, c), variant(r, c), nearMiss(r, c), nearMiss(r, c), variant(r, nearMiss(r, c)), eqValue(r), eqTraps[r.Intn(len(eqTraps))])
		return obj{"const": variant(r, c)}, docs
	case 1:
		n := 1 + r.Intn(5)
		if r.Intn(12) == 0 {
			n = genBigSize(r)
		}
		l, seen := arr{}, map[string]bool{}
		for i := 0; i < n; i++ {
			v := eqValue(r)
			if n > 30 {
				v = genScalar(r)
			}
			if len(l) > 0 && r.Intn(3) == 0 {
				v = nearMiss(r, l[r.Intn(len(l))])
			}
			if key := eqKey(v); !seen[key] {
				seen[key] = true
				l = append(l, v)
			}
		}
		for i := 0; i < 3; i++ {
			c := l[r.Intn(len(l))]
			docs = append(docs, variant(r, c), nearMiss(r, c), eqValue(r))
		}
		docs = append(docs, variant(r, l[len(l)-1]), variant(r, l[0]), eqTraps[r.Intn(len(eqTraps))], arr(l))
		return obj{"enum": l}, docs
	}
	for i := 0; i < 6; i++ {
		n := r.Intn(6)
		if r.Intn(8) == 0 {
			n = genBigSize(r)
		}
		l := arr{}
		distinct := n > 30 && r.Intn(2) == 0
		if distinct { // many different elements of all kinds, none twice
			seen := map[string]bool{}
			for tries := 0; len(l) < n && tries < 3*n; tries++ {
				var v interface{}
				switch r.Intn(8) {
				case 0:
					v = eqValue(r)
				case 1, 2:
					v = genString(r) + strconv.Itoa(r.Intn(1000))
				case 3:
					v = arr{num(r.Intn(100)), strconv.Itoa(r.Intn(100))}
				case 4:
					v = obj{genKey(r): num(r.Intn(1000))}
				default:
					v = spell(r, decOf(big.NewInt(r.Int63()>>uint(r.Intn(60))), -int64(r.Intn(3))))
				}
				if k := eqKey(v); !seen[k] {
					seen[k] = true
					l = append(l, v)
				}
			}
			n = 0
		}
		for j := 0; j < n; j++ {
			switch {
			case n > 30 && r.Intn(10) > 0:
				l = append(l, spell(r, decOf(big.NewInt(int64(j)), 0)))
			case len(l) > 0 && r.Intn(3) == 0:
				l = append(l, nearMiss(r, l[r.Intn(len(l))]))
			default:
				l = append(l, eqValue(r))
			}
		}
		if len(l) > 0 && r.Intn(2) == 0 { // exactly one duplicate at known places
			a, b := r.Intn(len(l)), r.Intn(len(l)+1)
			if r.Intn(3) == 0 {
				a, b = 0, len(l)
			}
			v := variant(r, l[a])
			l = append(l[:b:b], append(arr{v}, l[b:]...)...)
		}
		docs = append(docs, l)
	}
	traps := arr{}
	for j := 4 + r.Intn(12); j > 0; j-- {
		traps = append(traps, eqTraps[r.Intn(len(eqTraps))])
		if r.Intn(4) == 0 {
			traps = append(traps, variant(r, traps[r.Intn(len(traps))]))
		}
	}
	docs = append(docs, traps, obj{"a": num(1), "b": num(1)}, "aa", nil)
	return obj{"uniqueItems": r.Intn(8) > 0}, docs
}

// ---------- C04 arrays ----------

// leaf is a small schema about one value, with values on both sides
func leaf(r *rand.Rand, draft int) (interface{}, []interface{}, []interface{}) {
	switch r.Intn(9) {
	case 0:
		return obj{"type": "integer"}, []interface{}{num(r.Intn(9)), json.Number("1.0")}, []interface{}{"x", json.Number("1.5"), nil}
	case 1:
		return obj{"type": "string"}, []interface{}{"", "é"}, []interface{}{num(0), nil, true}
	case 2:
		n := r.Intn(5)
		return obj{"minimum": num(n)}, []interface{}{num(n), num(n + 1), "s", nil}, []interface{}{num(n - 1), num(-5)}
	case 3:
		return obj{"enum": arr{"a", num(1)}}, []interface{}{"a", json.Number("1.0")}, []interface{}{"b", num(2), nil}
	case 4:
		if draft >= D6 {
			b := r.Intn(2) == 0
			if b {
				return true, []interface{}{nil, "x", num(1)}, nil
			}
			return false, nil, []interface{}{nil, "x", num(1)}
		}
		return obj{}, []interface{}{nil, "x", num(1)}, nil
	case 5:
		return obj{"not": obj{"type": "null"}}, []interface{}{"x", num(1), false}, []interface{}{nil}
	case 6:
		return obj{"type": arr{"null", "boolean"}}, []interface{}{nil, false}, []interface{}{num(0), "", arr{}}
	case 7:
		return obj{"maxLength": num(1)}, []interface{}{"", "😀", num(12)}, []interface{}{"ab"}
	}
	return obj{"required": arr{"a"}}, []interface{}{obj{"a": nil}, "x"}, []interface{}{obj{}, obj{"b": num(1)}}
}

func objLeaf(r *rand.Rand, draft int) (interface{}, []interface{}, []interface{}) {
	for {
		s, g, b := leaf(r, draft)
		if _, ok := s.(obj); ok {
			return s, g, b
		}
	}
}

func pickValue(r *rand.Rand, good, bad []interface{}, pGood int) interface{} {
	if (r.Intn(100) < pGood && len(good) > 0) || len(bad) == 0 {
		if len(good) == 0 {
			return genScalar(r)
		}
		return good[r.Intn(len(good))]
	}
	return bad[r.Intn(len(bad))]
}

func focusArrays(r *rand.Rand, draft int) (obj, []interface{}) {
	s := obj{}
	type gb struct{ g, b []interface{} }
	var items []gb
	var single, extra, cont *gb
	nItems := 0
	switch r.Intn(4) {
	case 0:
		x, g, b := leaf(r, draft)
		s["items"] = x
		single = &gb{g, b}
		if r.Intn(3) == 0 { // without effect
			s["additionalItems"] = []interface{}{false, obj{"not": obj{}}}[r.Intn(2)]
		}
	case 1, 2:
		nItems = 1 + r.Intn(4)
		if r.Intn(10) == 0 {
			nItems = 5 + r.Intn(20)
		}
		l := arr{}
		for i := 0; i < nItems; i++ {
			x, g, b := leaf(r, draft)
			l = append(l, x)
			items = append(items, gb{g, b})
		}
		s["items"] = l
		switch r.Intn(4) {
		case 0:
			s["additionalItems"] = false
		case 1:
			s["additionalItems"] = true
		case 2:
			x, g, b := objLeaf(r, draft)
			s["additionalItems"] = x
			extra = &gb{g, b}
		}
	case 3:
		if r.Intn(3) == 0 {
			s["additionalItems"] = []interface{}{false, obj{"not": obj{}}}[r.Intn(2)]
		}
	}
	if draft >= D6 && r.Intn(2) == 0 {
		x, g, b := leaf(r, draft)
		s["contains"] = x
		cont = &gb{g, b}
	} else if draft < D6 && r.Intn(4) == 0 {
		s["contains"] = obj{"not": obj{}}
	}
	size := func() int {
		if r.Intn(10) == 0 {
			return genBigSize(r)
		}
		return r.Intn(6)
	}
	var lens []int
	if r.Intn(2) == 0 {
		n := size()
		if r.Intn(2) == 0 {
			s["minItems"] = spell(r, parseDec(strconv.Itoa(n)))
		} else {
			s["maxItems"] = spell(r, parseDec(strconv.Itoa(n)))
		}
		if r.Intn(3) == 0 { // contradictory bounds are allowed here
			s[[]string{"minItems", "maxItems"}[r.Intn(2)]] = num(n + r.Intn(5) - 2)
			for _, k := range []string{"minItems", "maxItems"} {
				if c, ok := countOf(s[k]); ok && c < 0 {
					s[k] = num(0)
				}
			}
		}
		lens = append(lens, n-1, n, n+1)
	}
	if nItems > 0 {
		lens = append(lens, nItems-1, nItems, nItems+1, nItems+2)
	}
	lens = append(lens, 0, 1+r.Intn(3), size())
	var docs []interface{}
	for _, n := range lens {
		if n < 0 {
			continue
		}
		mk := func(bad int) arr {
			l := arr{}
			for i := 0; i < n; i++ {
				p := 100
				if i == bad {
					p = 0
				}
				var v interface{}
				switch {
				case single != nil:
					v = pickValue(r, single.g, single.b, p)
				case i < len(items):
					v = pickValue(r, items[i].g, items[i].b, p)
				case extra != nil:
					v = pickValue(r, extra.g, extra.b, p)
				case cont != nil:
					v = pickValue(r, cont.b, cont.g, 90)
				default:
					v = genScalar(r)
				}
				l = append(l, v)
			}
			if cont != nil && n > 0 {
				switch r.Intn(3) {
				case 0: // exactly one candidate somewhere
					for i := range l {
						l[i] = pickValue(r, cont.b, nil, 100)
					}
					j := r.Intn(n)
					if r.Intn(2) == 0 {
						j = n - 1
					}
					l[j] = pickValue(r, cont.g, nil, 100)
				case 1:
					for i := range l {
						l[i] = pickValue(r, cont.b, nil, 100)
					}
				}
			}
			return l
		}
		docs = append(docs, mk(-1))
		if n > 0 {
			docs = append(docs, mk(r.Intn(n)), mk(n-1))
			if nItems > 0 && nItems < n {
				docs = append(docs, mk(nItems), mk(nItems-1))
			}
		}
	}
	docs = append(docs, []interface{}{nil, "abc", num(3), obj{}, obj{"0": "x", "length": num(0)}, true}[r.Intn(6)])
	return s, docs
}

// ---------- C05 objects ----------

func focusObjects(r *rand.Rand, draft int) (obj, []interface{}) {
	if r.Intn(60) == 0 {
		return bigObject(r, draft)
	}
	s := obj{}
	keys := map[string]bool{}
	key := func() string {
		k := genKey(r)
		keys[k] = true
		return k
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		switch r.Intn(9) {
		case 0, 1:
			m, _ := s["properties"].(obj)
			if m == nil {
				m = obj{}
			}
			c := 1 + r.Intn(3)
			if r.Intn(20) == 0 {
				c = genSize(r)
			}
			for j := 0; j < c; j++ {
				x, _, _ := leaf(r, draft)
				m[key()] = x
			}
			s["properties"] = m
		case 2, 3:
			m, _ := s["patternProperties"].(obj)
			if m == nil {
				m = obj{}
			}
			for j := 1 + r.Intn(3); j > 0; j-- {
				x, _, _ := leaf(r, draft)
				p := genPattern(r)
				m[p] = x
				for q := 0; q < 2; q++ {
					k := matchGen(r, p)
					if r.Intn(3) == 0 {
						k = genStringLen(r, 1) + k
					}
					keys[k] = true
				}
			}
			s["patternProperties"] = m
		case 4:
			if r.Intn(2) == 0 {
				s["additionalProperties"] = r.Intn(4) == 0
			} else {
				x, _, _ := objLeaf(r, draft)
				s["additionalProperties"] = x
			}
		case 5:
			if draft >= D6 {
				s["propertyNames"] = []interface{}{obj{"maxLength": num(1 + r.Intn(3))}, obj{"pattern": genPattern(r)}, obj{"enum": arr{"a", "foo", ""}}, true, obj{"not": obj{"const": "a"}}, obj{"type": "string"}, obj{"minLength": num(1)}}[r.Intn(7)]
			} else {
				s["propertyNames"] = obj{"maxLength": num(0)}
			}
		case 6:
			m, _ := s["dependencies"].(obj)
			if m == nil {
				m = obj{}
			}
			for j := 1 + r.Intn(2); j > 0; j-- {
				if r.Intn(2) == 0 {
					l := arr{}
					seen := map[string]bool{}
					for q := r.Intn(4); q > 0; q-- {
						k := key()
						if !seen[k] {
							seen[k] = true
							l = append(l, k)
						}
					}
					if r.Intn(12) == 0 {
						l = someKeys(r, r.Intn(len(keyPool)))
					}
					m[key()] = l
				} else if draft >= D6 && r.Intn(4) == 0 {
					m[key()] = r.Intn(2) == 0
				} else {
					m[key()] = []interface{}{obj{"required": arr{key()}}, obj{"maxProperties": num(r.Intn(3))}, obj{"properties": obj{key(): obj{"type": "null"}}}, obj{"additionalProperties": false}}[r.Intn(4)]
				}
			}
			s["dependencies"] = m
		case 7:
			l, seen := arr{}, map[string]bool{}
			for j := r.Intn(4); j >= 0; j-- {
				k := key()
				if !seen[k] {
					seen[k] = true
					l = append(l, k)
				}
			}
			s["required"] = l
		case 8:
			c := r.Intn(4)
			if r.Intn(15) == 0 {
				c = genBigSize(r)
			}
			switch r.Intn(3) {
			case 0:
				s["minProperties"] = spell(r, parseDec(strconv.Itoa(c)))
				delete(s, "maxProperties")
			case 1:
				s["maxProperties"] = spell(r, parseDec(strconv.Itoa(c)))
				delete(s, "minProperties")
			default:
				s["minProperties"], s["maxProperties"] = num(c), num(c+r.Intn(2))
			}
		}
	}
	var pool []string
	for k := range keys {
		pool = append(pool, k)
	}
	sortStrings(pool)
	if len(pool) == 0 {
		pool = []string{"a", "b"}
	}
	var docs []interface{}
	for i := 0; i < 7; i++ {
		o := obj{}
		switch r.Intn(5) {
		case 0:
			for _, k := range pool {
				o[k] = valueForKey(r, s, k)
			}
			if r.Intn(2) == 0 {
				delete(o, pool[r.Intn(len(pool))])
			}
		default:
			for j := r.Intn(5); j > 0; j-- {
				k := pool[r.Intn(len(pool))]
				if r.Intn(6) == 0 {
					k = genKey(r)
				}
				o[k] = valueForKey(r, s, k)
			}
		}
		for _, kw := range []string{"minProperties", "maxProperties"} {
			if c, ok := countOf(s[kw]); ok && c < 700 && r.Intn(2) == 0 {
				want := int(c) + r.Intn(3) - 1
				for j := 0; len(o) < want; j++ {
					o[fmt.Sprintf("k%d", j)] = valueForKey(r, s, fmt.Sprintf("k%d", j))
				}
			}
		}
		docs = append(docs, o)
	}
	docs = append(docs, obj{}, []interface{}{nil, "a", num(1), arr{}, arr{"a", obj{}}, false}[r.Intn(6)])
	return s, docs
}

// valueForKey is a value for a member: mostly one that its own schema likes
func valueForKey(r *rand.Rand, s obj, k string) interface{} {
	if r.Intn(6) == 0 {
		return nil
	}
	if p, ok := s["properties"].(obj); ok {
		if x, ok := p[k]; ok && r.Intn(4) > 0 {
			return (&DocGen{r: r, root: s}).Doc(x, 1)
		}
	}
	if p, ok := s["patternProperties"].(obj); ok && r.Intn(4) > 0 {
		for _, q := range sortedKeys(p) {
			if c := re(q); c != nil && c.MatchString(k) {
				return (&DocGen{r: r, root: s}).Doc(p[q], 1)
			}
		}
	}
	return []interface{}{num(1), "a", "x", nil, true, arr{}, obj{"a": num(1)}, json.Number("1.0"), "ab"}[r.Intn(9)]
}

// ---------- C06 applicators ----------

type algebra struct {
	r     *rand.Rand
	draft int
	mode  int // 0: integers, 1: objects, 2: strings
	size  int
}

func (a *algebra) leaf() interface{} {
	r := a.r
	if a.draft >= D6 && r.Intn(8) == 0 {
		return r.Intn(2) == 0
	}
	if r.Intn(12) == 0 {
		return []interface{}{obj{}, obj{"not": obj{}}}[r.Intn(2)]
	}
	k := string("abcd"[r.Intn(4)])
	switch a.mode {
	case 0:
		return []interface{}{obj{"multipleOf": num(2 + r.Intn(4))}, obj{"minimum": num(r.Intn(20))}, obj{"maximum": num(r.Intn(20))}, obj{"enum": arr{num(r.Intn(20)), num(20 + r.Intn(20))}}, obj{"type": "integer"}, obj{"type": "string"}}[r.Intn(6)]
	case 1:
		return []interface{}{obj{"required": arr{k}}, obj{"properties": obj{k: obj{"enum": arr{num(r.Intn(2))}}}}, obj{"maxProperties": num(r.Intn(4))}, obj{"minProperties": num(r.Intn(4))}, obj{"dependencies": obj{k: arr{"a"}}}, obj{"properties": obj{k: obj{"type": "null"}}, "required": arr{k}}}[r.Intn(6)]
	}
	return []interface{}{obj{"pattern": k}, obj{"pattern": "^" + k}, obj{"pattern": k + "$"}, obj{"maxLength": num(r.Intn(4))}, obj{"minLength": num(r.Intn(4))}, obj{"enum": arr{k, k + "a"}}}[r.Intn(6)]
}

func (a *algebra) tree(depth int) interface{} {
	r := a.r
	a.size--
	if depth == 0 || a.size <= 0 || r.Intn(6) == 0 {
		return a.leaf()
	}
	s := obj{}
	n := 1
	if r.Intn(4) == 0 {
		n = 2 + r.Intn(2)
	}
	for i := 0; i < n; i++ {
		width := func() int {
			if r.Intn(25) == 0 {
				return genSize(r) + 1
			}
			return 1 + r.Intn(4)
		}
		branches := func() arr {
			l := arr{}
			for j := width(); j > 0; j-- {
				l = append(l, a.tree(depth-1))
			}
			if len(l) > 1 && r.Intn(6) == 0 { // the same branch twice
				l[r.Intn(len(l))] = l[r.Intn(len(l))]
			}
			return l
		}
		switch k := r.Intn(8); {
		case k < 2:
			s["allOf"] = branches()
		case k < 4:
			s["anyOf"] = branches()
		case k < 6:
			s["oneOf"] = branches()
		case k == 6:
			s["not"] = a.tree(depth - 1)
		default:
			if a.draft >= D7 {
				s["if"] = a.tree(depth - 1)
				if r.Intn(5) > 0 {
					s["then"] = a.tree(depth - 1)
				}
				if r.Intn(5) > 0 {
					s["else"] = a.tree(depth - 1)
				}
				if r.Intn(10) == 0 {
					delete(s, "if")
				}
			} else {
				s["not"] = a.tree(depth - 1)
			}
		}
	}
	if r.Intn(4) == 0 {
		if l, ok := a.leaf().(obj); ok {
			for k, v := range l {
				if _, taken := s[k]; !taken {
					s[k] = v
				}
			}
		}
	}
	return s
}

func (a *algebra) docs() []interface{} {
	r := a.r
	var docs []interface{}
	switch a.mode {
	case 0:
		for i := 0; i < 10; i++ {
			docs = append(docs, num(r.Intn(40)))
		}
		docs = append(docs, json.Number("0"), json.Number("2.5"), "x")
	case 1:
		for i := 0; i < 10; i++ {
			o := obj{}
			for _, k := range "abcd" {
				if r.Intn(2) == 0 {
					o[string(k)] = []interface{}{num(0), num(1), nil}[r.Intn(3)]
				}
			}
			docs = append(docs, o)
		}
		docs = append(docs, obj{}, num(1))
	default:
		for i := 0; i < 10; i++ {
			b := make([]byte, r.Intn(5))
			for j := range b {
				b[j] = "abcd"[r.Intn(4)]
			}
			docs = append(docs, string(b))
		}
		docs = append(docs, "", nil)
	}
	return docs
}

// wide: a long list of branches of which few (none, one, two) match
func (a *algebra) wide() (obj, []interface{}) {
	r := a.r
	n := 2 + r.Intn(30)
	if r.Intn(8) == 0 {
		n = genBigSize(r)
		if n > 300 {
			n = 300
		}
	}
	l := make(arr, n)
	for i := range l {
		switch r.Intn(6) {
		case 0:
			l[i] = obj{"enum": arr{num(i), num(i + 1)}}
		case 1:
			l[i] = obj{"minimum": num(i), "maximum": num(i)}
		case 2:
			l[i] = obj{"type": "integer", "enum": arr{num(i)}}
		default:
			l[i] = obj{"enum": arr{num(i)}}
		}
	}
	if r.Intn(3) == 0 {
		l[r.Intn(n)] = obj{"type": []interface{}{"string", "integer", arr{"number", "null"}}[r.Intn(3)]}
	}
	if r.Intn(4) == 0 {
		l[n-1] = obj{"multipleOf": num(1 + r.Intn(3))}
	}
	k := pick(r, "anyOf", "oneOf", "anyOf", "oneOf", "allOf")
	if k == "allOf" {
		for i := range l {
			l[i] = obj{"not": l[i]}
		}
	}
	docs := []interface{}{num(0), num(1), num(n - 1), num(n), num(n - 2), num(n / 2), json.Number("0.5"), "x", nil, num(r.Intn(n)), num(r.Intn(n)), num(r.Intn(n))}
	return obj{k: l}, docs
}

func focusAlgebra(r *rand.Rand, draft int) (obj, []interface{}) {
	a := &algebra{r: r, draft: draft, mode: r.Intn(3), size: 30}
	if r.Intn(12) == 0 {
		return a.wide()
	}
	for {
		depth := 1 + r.Intn(4)
		if r.Intn(20) == 0 {
			depth = 12
		}
		if s, ok := a.tree(depth).(obj); ok {
			return s, a.docs()
		}
		a.size = 30
	}
}

// ---------- mixed ----------

func focusMixed(r *rand.Rand, draft int) (obj, []interface{}) {
	g := &Gen{r: r, draft: draft}
	for {
		s := g.Root()
		if o, ok := s.(obj); ok {
			return o, docsFor(r, o, 10)
		}
		g = &Gen{r: r, draft: draft}
	}
}

// withSiblings adds unrelated keywords next to the ones in focus
func withSiblings(r *rand.Rand, draft int, s obj) obj {
	g := &Gen{r: r, draft: draft, size: 4, owner: -1}
	x := obj{}
	for i := 1 + r.Intn(2); i > 0; i-- {
		g.keyword(x, 1, false)
	}
	out := obj{}
	for k, v := range s {
		out[k] = v
	}
	for k, v := range x {
		if _, taken := out[k]; !taken {
			out[k] = v
		}
	}
	u := newUniverse(false, draft)
	d := u.Add("", out, draft)
	if u.WellFormed(MNode{V: out, Doc: d, Draft: draft}) != "" {
		return s
	}
	return out
}

// runFocus drives one focus at a random place of a bigger schema
func runFocus(t *T, f focusFn, level int) {
	r := t.R
	d := randDraft(r)
	m := modeFor(r, d)
	s, docs := f(r, d)
	if r.Intn(5) == 0 {
		s = withSiblings(r, d, s)
	}
	if r.Intn(8) == 0 {
		s = annotate(r, s)
	}
	levels := 0
	deep := false
	if r.Intn(60) == 0 && s["definitions"] == nil && !containsRef(s) {
		var what string
		s, docs, what = deepen(r, d, s, docs)
		t.Count(what, 1)
		deep = true
	}
	if r.Intn(3) == 0 && !deep {
		levels = 1 + r.Intn(3)
		if r.Intn(40) == 0 {
			levels = 10
		}
	}
	p := Placed{S: s, F: func(v interface{}) interface{} { return v }}
	if _, hasRefs := s["definitions"]; !hasRefs && levels > 0 && !containsRef(s) {
		p = place(r, d, s, levels)
		p.S = hoist(r, p.S)
	}
	if r.Intn(4) == 0 && !deep {
		if o, ok := share(r, d, p.S); ok {
			p.S = o
			t.Count("shared", 1)
		}
	}
	pair := compilePair(t, m, p.S)
	if pair == nil {
		return
	}
	t.Count("schemas", 1)
	t.Count("draft:"+strconv.Itoa(d), 1)
	for i, v := range docs {
		doc := p.F(v)
		valid, decided := pair.check(doc, level)
		if i == 0 && decided && t.Idx < 64 {
			t.Sample(map[string]interface{}{"mode": m.String(), "schema": short(pair.Text), "document": short(text(doc)), "valid": valid})
		}
	}
}

// share moves subschemas to definitions and refers to them; equal ones can share one definition
func share(r *rand.Rand, draft int, s interface{}) (interface{}, bool) {
	root, ok := s.(obj)
	if !ok || containsRef(root) {
		return s, false
	}
	if _, taken := root["definitions"]; taken {
		return s, false
	}
	defs, names, p := obj{}, map[string]string{}, []int{10, 30, 80}[r.Intn(3)]
	var walk func(v interface{}) interface{}
	sub := func(v interface{}) interface{} {
		o, ok := v.(obj)
		if b, isBool := v.(bool); isBool && draft >= D6 && r.Intn(100) < p {
			name := fmt.Sprintf("s%d%v", len(defs), b)
			defs[name] = b
			return obj{"$ref": refTo(r, name)}
		}
		if !ok {
			return v
		}
		key := text(o)
		if name, ok := names[key]; ok && r.Intn(4) > 0 {
			return obj{"$ref": refTo(r, name)}
		}
		w := walk(o)
		if r.Intn(100) >= p {
			return w
		}
		name := fmt.Sprintf("s%d%s", len(defs), pick(r, "", "", "x", "/y", "~", "%", " ", "é", "A", "a"))
		defs[name] = w
		names[key] = name
		return obj{"$ref": refTo(r, name)}
	}
	walk = func(v interface{}) interface{} {
		m := v.(obj)
		out := obj{}
		for _, k := range sortedKeys(m) {
			out[k] = m[k]
			switch k {
			case "properties", "patternProperties", "dependencies":
				if mm, ok := m[k].(obj); ok {
					o := obj{}
					for _, kk := range sortedKeys(mm) {
						o[kk] = sub(mm[kk])
					}
					out[k] = o
				}
			case "items", "additionalItems", "additionalProperties", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "contains", "propertyNames":
				if l, ok := m[k].(arr); ok {
					o := make(arr, len(l))
					for i := range l {
						o[i] = sub(l[i])
					}
					out[k] = o
				} else {
					out[k] = sub(m[k])
				}
			}
		}
		return out
	}
	out := walk(root).(obj)
	if len(defs) == 0 {
		return s, false
	}
	out["definitions"] = defs
	return out, true
}

func containsRef(v interface{}) bool {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if k == "$ref" || containsRef(e) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if containsRef(e) {
				return true
			}
		}
	}
	return false
}

// focusMerged puts the keywords of several groups into one schema
func focusMerged(r *rand.Rand, draft int) (obj, []interface{}) {
	all := []focusFn{focusNumbers, focusStrings, focusEquality, focusArrays, focusObjects, focusAlgebra}
	out := obj{}
	var docs []interface{}
	for i := 2 + r.Intn(3); i > 0; i-- {
		s, d := all[r.Intn(len(all))](r, draft)
		next := obj{}
		for k, v := range out {
			next[k] = v
		}
		for k, v := range s {
			if _, taken := next[k]; !taken {
				next[k] = v
			}
		}
		u := newUniverse(false, draft)
		md := u.Add("", next, draft)
		if u.WellFormed(MNode{V: next, Doc: md, Draft: draft}) == "" {
			out = next
		}
		if len(d) > 6 {
			r.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
			d = d[:6]
		}
		docs = append(docs, d...)
	}
	if r.Intn(2) == 0 {
		delete(out, "type")
	}
	if r.Intn(3) > 0 {
		delete(out, "enum")
		delete(out, "const")
	}
	return out, append(docs, docsFor(r, out, 3)...)
}

// focusBranches is about which branch explains a failure: branches that fail in different depth and number
func focusBranches(r *rand.Rand, draft int) (obj, []interface{}) {
	g := &Gen{r: r, draft: draft, size: 40, owner: -1}
	keys := []string{"a", "b", "c", "kind"}
	branch := func() interface{} {
		switch r.Intn(8) {
		case 0:
			return g.Schema(2, false)
		case 1:
			if draft >= D6 {
				return r.Intn(4) == 0
			}
			return obj{"type": "null"}
		case 2:
			s, _, _ := leaf(r, draft)
			return s
		case 3:
			a := &algebra{r: r, draft: draft, mode: 1, size: 10}
			return a.tree(2)
		}
		// a tagged object
		s := obj{}
		props := obj{}
		for _, k := range keys {
			switch r.Intn(5) {
			case 0, 1:
				props[k] = obj{"enum": arr{num(r.Intn(2))}}
			case 2:
				x, _, _ := leaf(r, draft)
				props[k] = x
			case 3:
				props[k] = obj{"properties": obj{keys[r.Intn(4)]: obj{"type": "string"}}, "required": arr{keys[r.Intn(4)]}}
			}
		}
		s["properties"] = props
		if r.Intn(2) == 0 {
			s["required"] = arr{keys[r.Intn(2)], keys[2+r.Intn(2)]}[:1+r.Intn(2)]
		}
		if r.Intn(4) == 0 {
			s["additionalProperties"] = false
		}
		if r.Intn(5) == 0 {
			s["type"] = []interface{}{"object", "array"}[r.Intn(2)]
		}
		if r.Intn(5) == 0 {
			s["minProperties"] = num(r.Intn(4))
		}
		return s
	}
	n := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		n = genSize(r) + 1
		if n > 40 {
			n = 40
		}
	}
	l := arr{}
	for i := 0; i < n; i++ {
		l = append(l, branch())
	}
	if n > 1 && r.Intn(4) == 0 {
		l[r.Intn(n)] = clone(l[r.Intn(n)]) // equally good branches
	}
	s := obj{}
	var docs []interface{}
	val := func(depth int) interface{} { return nil }
	val = func(depth int) interface{} {
		switch r.Intn(6) {
		case 0:
			return genScalar(r)
		case 1:
			if depth > 0 {
				o := obj{}
				for _, k := range keys {
					if r.Intn(2) == 0 {
						o[k] = val(depth - 1)
					}
				}
				return o
			}
		}
		return []interface{}{num(0), num(1), "x", nil}[r.Intn(4)]
	}
	object := func() interface{} {
		o := obj{}
		for _, k := range keys {
			if r.Intn(3) > 0 {
				o[k] = val(1)
			}
		}
		if r.Intn(5) == 0 {
			o["extra"] = nil
		}
		return o
	}
	for i := 0; i < 8; i++ {
		switch r.Intn(4) {
		case 0:
			docs = append(docs, (&DocGen{r: r, root: s}).Doc(l[r.Intn(n)], 2))
		default:
			docs = append(docs, object())
		}
	}
	docs = append(docs, genScalar(r))
	switch k := r.Intn(6); {
	case k == 0:
		s["anyOf"] = l
	case k == 1:
		s["oneOf"] = l
	case k == 2 && draft >= D6:
		s["contains"] = l[0]
		for i := range docs {
			a := arr{}
			for j := r.Intn(4); j > 0; j-- {
				a = append(a, docs[r.Intn(len(docs))])
			}
			docs[i] = append(a, docs[i])
		}
		docs = append(docs, arr{})
	case k == 3 && draft >= D7:
		s["if"] = l[0]
		s["then"] = branch()
		s["else"] = branch()
	case k == 4:
		s["allOf"] = l
		if r.Intn(2) == 0 {
			s["not"] = branch()
		}
	default:
		s[[]string{"anyOf", "oneOf"}[r.Intn(2)]] = arr{obj{"anyOf": l}, obj{"oneOf": l}, branch()}
	}
	if r.Intn(5) == 0 {
		for _, k := range []string{"anyOf", "oneOf", "allOf"} {
			if _, taken := s[k]; !taken && len(s) < 3 {
				s[k] = arr{branch(), branch()}
			}
		}
	}
	return s, docs
}
