package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// genFormatString makes a string of or near the grammar of a built-in format
func genFormatString(r *rand.Rand, f string) string {
	s := validFormatString(r, f)
	if r.Intn(2) == 0 {
		return s
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		s = perturb(r, f, s)
	}
	return s
}

func pick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

func genDate(r *rand.Rand) string {
	y := []int{0, 1, 4, 100, 400, 999, 1600, 1899, 1900, 1999, 2000, 2004, 2018, 2019, 2020, 2100, 2400, 9999}[r.Intn(18)]
	if r.Intn(2) == 0 {
		y = r.Intn(10000)
	}
	mo := 1 + r.Intn(12)
	d := []int{1, 28, 29, 30, 31, 15}[r.Intn(6)]
	if r.Intn(3) == 0 {
		mo = 2
	}
	if r.Intn(25) == 0 {
		mo = []int{0, 13, 99}[r.Intn(3)]
	}
	if r.Intn(25) == 0 {
		d = []int{0, 32, 99}[r.Intn(3)]
	}
	return fmt.Sprintf("%04d-%02d-%02d", y, mo, d)
}

func genTime(r *rand.Rand, off bool) string {
	h, m, s := r.Intn(24), r.Intn(60), r.Intn(60)
	switch r.Intn(12) {
	case 0:
		h = []int{0, 23, 24, 25, 99}[r.Intn(5)]
	case 1:
		m = []int{0, 59, 60, 61, 99}[r.Intn(5)]
	case 2:
		s = []int{0, 58, 59, 61, 62, 99}[r.Intn(6)]
	}
	x := fmt.Sprintf("%02d:%02d:%02d", h, m, s)
	if r.Intn(4) == 0 {
		x += "." + strings.Repeat("0", r.Intn(3)) + fmt.Sprint(r.Intn(1000000))
		if r.Intn(8) == 0 {
			x += strings.Repeat("123456789", 1+r.Intn(4))
		}
	}
	if off {
		switch r.Intn(3) {
		case 0:
			x += "Z"
		default:
			x += fmt.Sprintf("%s%02d:%02d", pick(r, "+", "-"), r.Intn(24), r.Intn(60))
		}
	}
	return x
}

func genLabel(r *rand.Rand) string {
	const cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	n := 1 + r.Intn(8)
	switch r.Intn(12) {
	case 0:
		n = 60 + r.Intn(6)
	case 1:
		n = 1
	case 2:
		n = 2
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = cs[r.Intn(len(cs))]
		if i > 0 && i < n-1 && r.Intn(8) == 0 {
			b[i] = '-'
		}
	}
	if r.Intn(20) == 0 {
		return pick(r, "-a", "a-", "a--b", "-", "xn--bcher-kva", "a_b", "1", "0-0")
	}
	return string(b)
}

func genHost(r *rand.Rand) string {
	n := 1 + r.Intn(4)
	if r.Intn(15) == 0 {
		// total length around the limit
		s := ""
		want := 250 + r.Intn(8)
		for len(s) < want {
			k := want - len(s)
			if k > 50 {
				k = 30 + r.Intn(20)
			}
			if s != "" {
				s += "."
				k--
			}
			if k <= 0 {
				break
			}
			s += strings.Repeat("a", k)
		}
		return s
	}
	l := make([]string, n)
	for i := range l {
		l[i] = genLabel(r)
	}
	return strings.Join(l, ".")
}

func genIPv4(r *rand.Rand) string {
	n := 4
	if r.Intn(15) == 0 {
		n = 3 + r.Intn(3)
	}
	l := make([]string, n)
	for i := range l {
		l[i] = fmt.Sprint([]int{0, 1, 9, 10, 99, 100, 127, 192, 199, 200, 249, 250, 255}[r.Intn(13)])
		if r.Intn(30) == 0 {
			l[i] = pick(r, "256", "260", "300", "999", "01", "00", "001", "", "1000", "0x1", " 1", "-1", "+1", "1e1", "٣")
		}
	}
	return strings.Join(l, ".")
}

func genIPv6(r *rand.Rand) string {
	group := func() string {
		g := fmt.Sprintf("%x", r.Intn(0x10000))
		switch r.Intn(8) {
		case 0:
			g = fmt.Sprintf("%04x", r.Intn(0x100))
		case 1:
			g = strings.ToUpper(g)
		case 2:
			g = "0"
		}
		if r.Intn(60) == 0 {
			g = pick(r, "10000", "g", "fffff", "00000", "-1", "x")
		}
		return g
	}
	n := 8
	v4 := r.Intn(5) == 0
	if v4 {
		n = 6
	}
	if r.Intn(12) == 0 {
		n += r.Intn(3) - 1
	}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, group())
	}
	if r.Intn(2) == 0 { // compress
		a := r.Intn(n + 1)
		b := a + r.Intn(n-a+1)
		if b > a || r.Intn(6) == 0 {
			left, right := strings.Join(l[:a], ":"), l[b:]
			rs := append([]string{}, right...)
			if v4 {
				rs = append(rs, genIPv4(r))
			}
			return left + "::" + strings.Join(rs, ":")
		}
	}
	if v4 {
		l = append(l, genIPv4(r))
	}
	return strings.Join(l, ":")
}

func genPointer(r *rand.Rand) string {
	s := ""
	for i := r.Intn(4); i > 0; i-- {
		s += "/" + pick(r, "", "a", "foo", "0", "~0", "~1", "a~1b", "~01", "m~0n", "é", "a b", "%20", "#", "\"", "~0~1")
	}
	return s
}

func genURI(r *rand.Rand, ref, iri bool) string {
	s := ""
	if !ref || r.Intn(2) == 0 {
		s = pick(r, "http", "https", "ftp", "a", "x-y", "a+b", "A1", "file", "urn", "z.z") + ":"
	}
	if r.Intn(2) == 0 {
		s += "//" + pick(r, "a", "example.com", "localhost:80", "a.b.c:8080", "[::1]", "[fe80::1]:80", "127.0.0.1")
		if r.Intn(2) == 0 {
			s += "/"
		}
	} else if r.Intn(3) == 0 {
		s += "/"
	}
	for i := r.Intn(4); i > 0; i-- {
		s += pick(r, "a", "b/", "..", ".", "%20", "~", "x;y=1", "@", "a,b", "(c)", "/a", "%C3%A9", "-_")
	}
	if iri && r.Intn(2) == 0 {
		s += pick(r, "é", "漢字", "ö/ß")
	}
	if r.Intn(3) == 0 {
		s += "?" + pick(r, "", "a=b", "a=b&c=d", "q", "/?", "%26")
	}
	if r.Intn(3) == 0 {
		s += "#" + pick(r, "", "frag", "/a/b", "%25", "a?b")
	}
	return s
}

func genTemplate(r *rand.Rand) string {
	s := pick(r, "", "", "http://example.com", "https://a.b")
	for i := 1 + r.Intn(4); i > 0; i-- {
		s += "/" + pick(r, "a", "dictionary", "{term}", "{term:1}", "{+x}", "{#y,z}", "{list*}", "{?q,r}", "{a}{b}", "x{y}z", "%7B", "%7D", "{;v}", "{&w}", "{.x}", "{/y*}", "")
	}
	return s
}

func genRegexText(r *rand.Rand) string {
	s := genPattern(r)
	switch r.Intn(6) {
	case 0:
		s += pick(r, "(", ")", "[", "]", "*", "+", "?", "{", "}", "\\", "(?<a>b)", "(?P<n>x)", "(?=x)", "(?!x)", "\\1", "\\Z", "\\z", "x{2,1}", "x{1001}", "a**", "[z-a]", "(?i)", "\\p{Greek}", "\\p{Foo}", "[[:alpha:]]", "\\cA", "\\uD800", "$^")
	case 1:
		s = pick(r, "(", "[", "*", "+", "^*", "(?", "(?:", "[^", "\\") + s
	}
	return s
}

func validFormatString(r *rand.Rand, f string) string {
	switch f {
	case "date":
		return genDate(r)
	case "time":
		return genTime(r, r.Intn(2) == 0)
	case "date-time":
		switch r.Intn(8) {
		case 0:
			return genDate(r)
		case 1:
			return genTime(r, r.Intn(2) == 0)
		}
		return genDate(r) + "T" + genTime(r, r.Intn(10) > 0)
	case "hostname":
		return genHost(r)
	case "email", "idn-email":
		s := pick(r, "a", "joe.bloggs", "te+st", "a-b_c", "x!y", "very.long.local.part", "1") + "@"
		if r.Intn(3) == 0 {
			s += genHost(r)
		} else {
			s += pick(r, "b", "example.com", "a.b.c", "x-y.org", "1.2")
		}
		if f == "idn-email" && r.Intn(2) == 0 {
			s = strings.Replace(s, "a", "é", 1)
			s += "漢"
		}
		return s
	case "ipv4":
		return genIPv4(r)
	case "ipv6":
		return genIPv6(r)
	case "uri":
		return genURI(r, false, false)
	case "iri":
		return genURI(r, false, true)
	case "uri-reference":
		return genURI(r, true, false)
	case "iri-reference":
		return genURI(r, true, true)
	case "uri-template":
		return genTemplate(r)
	case "uuid":
		b := make([]byte, 16)
		r.Read(b)
		s := fmt.Sprintf("%x-%x-%x-%x-%x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:16])
		switch r.Intn(3) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			if r.Intn(3) == 0 {
				s = "00000000-0000-0000-0000-000000000000"
			}
		}
		return s
	case "regex":
		return genRegexText(r)
	case "json-pointer":
		return genPointer(r)
	case "relative-json-pointer":
		s := pick(r, "0", "1", "2", "10", "120", "01", "00", "", "-1", "1.0", "٣", "9999999999999999999999")
		if r.Intn(4) == 0 {
			return s + "#"
		}
		return s + genPointer(r)
	}
	return genString(r)
}

const perturbChars = "0123456789abcfgxzAFGTZtz-:.+,/~#%@ _{}[]()*?\\\n\t\x00\"'!;=&é"

// perturb makes one small change
func perturb(r *rand.Rand, f, s string) string {
	rs := []rune(s)
	pc := []rune(perturbChars)
	c := pc[r.Intn(len(pc))]
	switch r.Intn(12) {
	case 0:
		return s + string(c)
	case 1:
		return string(c) + s
	case 2, 3:
		i := r.Intn(len(rs) + 1)
		return string(rs[:i]) + string(c) + string(rs[i:])
	case 4, 5:
		if len(rs) > 0 {
			i := r.Intn(len(rs))
			return string(rs[:i]) + string(rs[i+1:])
		}
	case 6, 7:
		if len(rs) > 0 {
			rs[r.Intn(len(rs))] = c
			return string(rs)
		}
	case 8:
		if len(rs) > 1 {
			i := r.Intn(len(rs) - 1)
			rs[i], rs[i+1] = rs[i+1], rs[i]
			return string(rs)
		}
	case 9:
		return validFormatString(r, builtinFormats[r.Intn(len(builtinFormats))])
	case 10:
		return pick(r, s+s, " "+s, s+" ", s+"\n", strings.ToUpper(s), strings.ToLower(s), "", s+"\x00", "\ufeff"+s)
	}
	if len(rs) > 0 {
		i := r.Intn(len(rs))
		j := i + r.Intn(len(rs)-i)
		return string(rs[:i]) + string(rs[j:])
	}
	return s
}
