package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

// canonical strings whose every one-character neighbour is tried
var formatSeeds = map[string][]string{
	"date":                  {"2020-02-29", "1999-12-31", "0000-01-01"},
	"time":                  {"23:59:59", "00:00:00Z", "12:34:56.789+05:30", "01:02:03-23:59"},
	"date-time":             {"2020-02-29T23:59:59Z", "1985-04-12T23:20:50.52Z", "1990-12-31T15:59:59-08:00", "1937-01-01T12:00:27.87+00:20", "2020-01-01", "10:11:12"},
	"hostname":              {"example.com", "a", "xn--4gbwdl.xn--wgbh1c", "a-b.c-d", "1.2.3"},
	"email":                 {"joe@example.com", "a.b+c@d"},
	"idn-email":             {"joe@example.com"},
	"ipv4":                  {"192.168.0.1", "0.0.0.0", "255.255.255.255"},
	"ipv6":                  {"::1", "2001:db8:0:0:1:0:0:1", "fe80::1", "::ffff:192.0.2.1", "1:2:3:4:5:6:7:8", "::", "1::8", "a:b:c:d:e:f:1.2.3.4"},
	"uri":                   {"http://example.com/a?b#c", "urn:a:b", "https://[::1]:80/"},
	"uri-reference":         {"/a/b?c#d", "//h/p", "a", "", "#f"},
	"iri":                   {"http://example.com/é"},
	"iri-reference":         {"/é"},
	"uri-template":          {"http://example.com/{a}/{b}", "/x{y,z}", "/"},
	"uuid":                  {"123e4567-e89b-12d3-a456-426655440000", "ABCDEFab-cdef-ABCD-EFab-cdefABCDEFab"},
	"regex":                 {"^a(b|c)*$", "[a-z]{2,3}", `\d+\.`, ""},
	"json-pointer":          {"/a/b", "", "/~0~1/0", "/"},
	"relative-json-pointer": {"0", "1/a/b", "10#", "0/~0~1"},
}

type fmtCase struct{ f, s string }

// enumerated part of the workload: every neighbour of the seeds, calendars, clocks, octets and lengths
var fmtEnum []fmtCase

func buildFmtEnum() {
	if fmtEnum != nil {
		return
	}
	add := func(f, s string) { fmtEnum = append(fmtEnum, fmtCase{f, s}) }
	chars := []string{}
	for c := 0; c < 128; c++ {
		chars = append(chars, string(rune(c)))
	}
	chars = append(chars, "é", "٣", "K", "\u00a0", "\U0001F600", "\u2028", "Z̈", "０", "ı", "ſ", "\ufffd")
	for _, f := range builtinFormats {
		for _, s := range formatSeeds[f] {
			add(f, s)
			for i := 0; i <= len(s); i++ {
				for _, c := range chars {
					add(f, s[:i]+c+s[i:])
					if i < len(s) {
						add(f, s[:i]+c+s[i+1:])
					}
				}
				if i < len(s) {
					add(f, s[:i]+s[i+1:])
					add(f, s[:i])
					add(f, s[i:])
				}
			}
			for _, g := range builtinFormats {
				add(g, s)
			}
		}
	}
	for _, y := range []int{0, 1, 4, 99, 100, 400, 1582, 1700, 1800, 1900, 1996, 1999, 2000, 2001, 2023, 2024, 2100, 2200, 2400, 9999} {
		for m := 0; m <= 13; m++ {
			for d := 0; d <= 32; d++ {
				s := fmt.Sprintf("%04d-%02d-%02d", y, m, d)
				add("date", s)
				add("date-time", s+"T00:00:00Z")
			}
		}
	}
	for h := 0; h < 100; h++ {
		for _, rest := range []string{":00:00", ":59:59", ":00:00Z", ":30:30+01:00"} {
			add("time", fmt.Sprintf("%02d%s", h, rest))
			add("date-time", fmt.Sprintf("2020-01-01T%02d%s", h, rest))
		}
		add("time", fmt.Sprintf("10:%02d:00", h))
		add("time", fmt.Sprintf("10:00:%02d", h))
		add("time", fmt.Sprintf("10:00:00+%02d:00", h))
		add("time", fmt.Sprintf("10:00:00-00:%02d", h))
		add("date-time", fmt.Sprintf("2020-01-01T10:%02d:00Z", h))
		add("date-time", fmt.Sprintf("2020-01-01T10:00:%02dZ", h))
		add("date-time", fmt.Sprintf("2020-01-01T10:00:00+%02d:00", h))
		add("date-time", fmt.Sprintf("2020-01-01T10:00:00-00:%02d", h))
	}
	for n := 0; n <= 40; n++ {
		add("time", "10:11:12."+strings.Repeat("5", n)+"Z")
		add("date-time", "2020-01-01T10:11:12."+strings.Repeat("1", n)+"Z")
	}
	for o := 0; o <= 300; o++ {
		for _, p := range []string{"%d.0.0.0", "1.%d.3.4", "1.2.%d.4", "1.2.3.%d", "%02d.1.1.1", "1.1.1.%03d"} {
			add("ipv4", fmt.Sprintf(p, o))
		}
		add("ipv6", fmt.Sprintf("::1.2.3.%d", o))
	}
	// every number of groups on both sides of ::, with and without a trailing IPv4 address
	groups := func(n int) string { return strings.TrimSuffix(strings.Repeat("a1:", n), ":") }
	for a := 0; a <= 9; a++ {
		add("ipv6", groups(a))
		add("ipv6", groups(a)+":1.2.3.4")
		for b := 0; b <= 9; b++ {
			add("ipv6", groups(a)+"::"+groups(b))
			sep := ":"
			if b == 0 {
				sep = ""
			}
			add("ipv6", groups(a)+"::"+groups(b)+sep+"1.2.3.4")
		}
	}
	for n := 0; n <= 6; n++ {
		add("ipv6", "1::"+strings.Repeat("f", n))
	}
	for n := 1; n <= 70; n++ {
		add("hostname", strings.Repeat("a", n))
		add("hostname", "b."+strings.Repeat("a", n)+".c")
	}
	for n := 240; n <= 262; n++ {
		s := ""
		for len(s)+51 < n {
			s += strings.Repeat("x", 50) + "."
		}
		add("hostname", s+strings.Repeat("y", n-len(s)))
	}
	for n := 0; n <= 12; n++ {
		add("relative-json-pointer", strings.Repeat("1", n))
		add("relative-json-pointer", strings.Repeat("0", n)+"#")
		add("regex", strings.Repeat("(", n)+strings.Repeat(")", n))
		add("regex", strings.Repeat("(", n)+strings.Repeat(")", n/2))
	}
	for _, n := range []int{0, 1, 999, 1000, 1001} {
		add("regex", fmt.Sprintf("a{%d}", n))
		add("regex", fmt.Sprintf("a{2,%d}", n))
	}
}

func unknownFormat(r *rand.Rand) string {
	return pick(r, "x-"+genString(r), "Date", "DATE", "date ", "dates", "date-Time", "ip", "ipv5", "uri-templates", "color", "phone", "", "json_pointer", "guid", "url", "host-name", "UUID", "idn-hostname", "int32", "duration")
}

func init() {
	register(&Check{ID: "C18",
		Rule:   "an evaluation is one (format, value) pair shown to the checker, directly or through a compiled schema, and compared with a hand-written recogniser of the grammar; distinct: different (format, value); values the recogniser calls ambiguous are counted as undecided only",
		Assume: []string{"the recognisers in formats.go state the documented grammars; regex is decided by the Go regexp package, which is the documented dialect"},
		Quick:  200000, Thorough: 2000000,
		Setup: func(w *Worker) { buildFmtEnum() },
		Need:  []string{"accepted", "rejected", "non_string", "unknown_format", "enumerated"},
		Run: func(t *T) {
			r := t.R
			one := func(f string, v interface{}) {
				want := formatVerdict(f, v)
				if want == grey {
					t.Count("undecided", 1)
					// still must not crash
					js.FormatCheckers.IsFormat(f, v)
					return
				}
				t.Eval(f + "\x00" + exactKey(v))
				got := js.FormatCheckers.IsFormat(f, v)
				if got != (want == yes) {
					t.Fail("format", obj{"format": f, "value": text(v)}, "format %q: expected %v, observed %v for %s", f, want == yes, got, short(text(v)))
				}
				if want == yes {
					t.Count("accepted", 1)
					if isBuiltin(f) {
						t.Count("accepted:"+f, 1)
					}
				} else {
					t.Count("rejected", 1)
					t.Count("rejected:"+f, 1)
				}
			}
			// share of the enumeration, spread over all cases
			n := t.Check.Quick
			if t.IsThorough() {
				n = t.Check.Thorough
			}
			for i := t.Idx; i < len(fmtEnum); i += n {
				one(fmtEnum[i].f, fmtEnum[i].s)
				t.Count("enumerated", 1)
			}
			for i := 0; i < 6; i++ {
				f := builtinFormats[r.Intn(len(builtinFormats))]
				one(f, genFormatString(r, f))
			}
			// through a schema, with values of any type and with formats nobody registered
			f := builtinFormats[r.Intn(len(builtinFormats))]
			var v interface{} = genFormatString(r, f)
			if r.Intn(3) == 0 {
				v = genValue(r, 2)
				if _, ok := v.(string); !ok {
					t.Count("non_string", 1)
				}
			}
			m := modeFor(r, randDraft(r))
			if r.Intn(4) == 0 {
				f = unknownFormat(r)
				if !isBuiltin(f) {
					t.Count("unknown_format", 1)
				}
			}
			one(f, v)
			p := place(r, m.Draft, obj{"format": f}, r.Intn(3))
			pair := compilePair(t, m, hoist(r, p.S))
			if pair == nil {
				return
			}
			pair.check(p.F(v), cmpErrors)
			t.Count("through_schema", 1)
			if t.Idx < 4 {
				t.Sample(obj{"format": f, "value": v})
			}
		}})
}

func isBuiltin(f string) bool {
	for _, b := range builtinFormats {
		if b == f {
			return true
		}
	}
	return false
}

var _ = json.Number("")
