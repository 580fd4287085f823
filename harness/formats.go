package main

import (
	"regexp"
	"strings"
	"sync"
)

// Three-valued oracle for the built-in formats. grey: the documented grammar leaves it open or the
// checker is documented as approximate there.
type tri int

const (
	no tri = iota
	yes
	grey
)

func b2t(b bool) tri {
	if b {
		return yes
	}
	return no
}

var builtinFormats = []string{"date", "time", "date-time", "hostname", "email", "idn-email", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "uuid", "regex", "json-pointer", "relative-json-pointer"}

// customVerdict lets a check add formats of its own to the oracle
var (
	customMu      sync.RWMutex
	customVerdict = map[string]func(v interface{}) bool{}
)

func formatVerdict(name string, v interface{}) tri {
	customMu.RLock()
	f, ok := customVerdict[name]
	customMu.RUnlock()
	if ok {
		return b2t(f(v))
	}
	s, ok := v.(string)
	if !ok {
		return yes
	}
	switch name {
	case "date":
		return b2t(isDate(s))
	case "time":
		return isTime(s)
	case "date-time":
		return isDateTime(s)
	case "hostname":
		return isHostname(s)
	case "ipv4":
		return b2t(isIPv4(s))
	case "ipv6":
		return b2t(isIPv6(s))
	case "uuid":
		return b2t(isUUID(s))
	case "regex":
		_, err := regexp.Compile(s)
		return b2t(err == nil)
	case "json-pointer":
		return b2t(isJSONPointer(s))
	case "relative-json-pointer":
		return b2t(isRelJSONPointer(s))
	case "email":
		return isEmail(s, false)
	case "idn-email":
		return isEmail(s, true)
	case "uri":
		return isURI(s, false, false)
	case "iri":
		return isURI(s, false, true)
	case "uri-reference":
		return isURI(s, true, false)
	case "iri-reference":
		return isURI(s, true, true)
	case "uri-template":
		return isURITemplate(s)
	}
	return yes
}

func digit(c byte) bool { return c >= '0' && c <= '9' }
func hexd(c byte) bool {
	return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
}
func alpha(c byte) bool { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') }

func twoDigits(s string) (int, bool) {
	if len(s) != 2 || !digit(s[0]) || !digit(s[1]) {
		return 0, false
	}
	return int(s[0]-'0')*10 + int(s[1]-'0'), true
}

func isDate(s string) bool {
	if len(s) != 10 || s[4] != '-' || s[7] != '-' {
		return false
	}
	a, ok1 := twoDigits(s[0:2])
	b, ok2 := twoDigits(s[2:4])
	m, ok3 := twoDigits(s[5:7])
	d, ok4 := twoDigits(s[8:10])
	if !ok1 || !ok2 || !ok3 || !ok4 || m < 1 || m > 12 || d < 1 {
		return false
	}
	y := a*100 + b
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		days = 29
	}
	return d <= days
}

// timeParts: clock verdict and what follows the seconds and fraction
func clock(s string) (tri, string) {
	if len(s) < 8 || s[2] != ':' || s[5] != ':' {
		return no, ""
	}
	h, ok1 := twoDigits(s[0:2])
	m, ok2 := twoDigits(s[3:5])
	sec, ok3 := twoDigits(s[6:8])
	if !ok1 || !ok2 || !ok3 || h > 23 || m > 59 || sec > 60 {
		return no, ""
	}
	v := yes
	if sec == 60 {
		v = grey // leap second
	}
	rest := s[8:]
	if strings.HasPrefix(rest, ".") {
		i := 1
		for i < len(rest) && digit(rest[i]) {
			i++
		}
		if i == 1 {
			return no, ""
		}
		rest = rest[i:]
	}
	return v, rest
}

func offset(s string) tri {
	if s == "Z" {
		return yes
	}
	if s == "z" {
		return grey
	}
	if len(s) != 6 || (s[0] != '+' && s[0] != '-') || s[3] != ':' {
		return no
	}
	h, ok1 := twoDigits(s[1:3])
	m, ok2 := twoDigits(s[4:6])
	if !ok1 || !ok2 {
		return no
	}
	if h > 24 || m > 60 {
		return no
	}
	if h == 24 || m == 60 {
		return grey
	}
	return yes
}

func and(a, b tri) tri {
	if a == no || b == no {
		return no
	}
	if a == grey || b == grey {
		return grey
	}
	return yes
}

func isTime(s string) tri {
	v, rest := clock(s)
	if v == no {
		return no
	}
	if rest == "" {
		return v
	}
	return and(v, offset(rest))
}

func isDateTime(s string) tri {
	if isDate(s) {
		return yes // documented: full date
	}
	if v := isTime(s); v != no {
		return v // documented: partial and full time
	}
	if len(s) < 12 || !isDate(s[:10]) {
		return no
	}
	sep := yes
	switch s[10] {
	case 'T':
	case 't':
		sep = grey
	default:
		return no
	}
	v, rest := clock(s[11:])
	if v == no {
		return no
	}
	return and(sep, and(v, offset(rest)))
}

func isHostname(s string) tri {
	if s == "" {
		return no
	}
	for _, l := range strings.Split(s, ".") {
		if len(l) < 1 || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
			return no
		}
		for i := 0; i < len(l); i++ {
			if !alpha(l[i]) && !digit(l[i]) && l[i] != '-' {
				return no
			}
		}
	}
	if len(s) > 255 {
		return no
	}
	if len(s) > 253 {
		return grey
	}
	return yes
}

func isIPv4(s string) bool {
	p := strings.Split(s, ".")
	if len(p) != 4 {
		return false
	}
	for _, x := range p {
		if len(x) < 1 || len(x) > 3 || (len(x) > 1 && x[0] == '0') {
			return false
		}
		n := 0
		for i := 0; i < len(x); i++ {
			if !digit(x[i]) {
				return false
			}
			n = n*10 + int(x[i]-'0')
		}
		if n > 255 {
			return false
		}
	}
	return true
}

func isIPv6(s string) bool {
	// groups of one part, with an IPv4 tail allowed at the very end
	groups := func(t string, v4ok bool) (int, bool) {
		if t == "" {
			return 0, true
		}
		n := 0
		p := strings.Split(t, ":")
		for i, g := range p {
			if v4ok && i == len(p)-1 && strings.Contains(g, ".") {
				if !isIPv4(g) {
					return 0, false
				}
				n += 2
				continue
			}
			if len(g) < 1 || len(g) > 4 {
				return 0, false
			}
			for j := 0; j < len(g); j++ {
				if !hexd(g[j]) {
					return 0, false
				}
			}
			n++
		}
		return n, true
	}
	parts := strings.Split(s, "::")
	switch len(parts) {
	case 1:
		n, ok := groups(s, true)
		return ok && n == 8
	case 2:
		a, ok1 := groups(parts[0], false)
		b, ok2 := groups(parts[1], true)
		return ok1 && ok2 && a+b <= 7
	}
	return false
}

func isUUID(s string) bool {
	if len(s) != 36 {
		return false
	}
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if s[i] != '-' {
				return false
			}
		} else if !hexd(s[i]) {
			return false
		}
	}
	return true
}

func isJSONPointer(s string) bool {
	if s == "" {
		return true
	}
	if s[0] != '/' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '~' && (i+1 >= len(s) || (s[i+1] != '0' && s[i+1] != '1')) {
			return false
		}
	}
	return true
}

func isRelJSONPointer(s string) bool {
	i := 0
	for i < len(s) && digit(s[i]) {
		i++
	}
	if i == 0 || (i > 1 && s[0] == '0') {
		return false
	}
	return s[i:] == "#" || isJSONPointer(s[i:])
}

func atomChar(c byte) bool {
	return alpha(c) || digit(c) || strings.IndexByte("!#$%&'*+-/=?^_`{|}~", c) >= 0
}

func isEmail(s string, idn bool) tri {
	nonASCII := false
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			nonASCII = true
		}
	}
	if strings.ContainsAny(s, "\"()<>[]:;,\\ \t\r\n") {
		// quoted forms, comments, display names, groups, domain literals and folding are not looked at,
		// except that an address needs an @ in any form
		if !strings.Contains(s, "@") {
			return no
		}
		return grey
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] == 0x7f {
			return no
		}
	}
	p := strings.Split(s, "@")
	if len(p) != 2 || p[0] == "" || p[1] == "" {
		return no
	}
	for _, side := range p {
		for _, a := range strings.Split(side, ".") {
			if a == "" {
				return no
			}
			for i := 0; i < len(a); i++ {
				if a[i] < 0x80 && !atomChar(a[i]) {
					return no
				}
			}
		}
	}
	if nonASCII && !idn {
		return grey
	}
	if nonASCII {
		return yes
	}
	if isHostname(p[1]) != yes {
		return grey
	}
	return yes
}

var (
	rxScheme  = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9+.-]*:`)
	rxSimple  = regexp.MustCompile(`^(//([a-z0-9-]+(\.[a-z0-9-]+)*|\[[0-9a-f]{0,4}::[0-9a-f]{0,4}\])(:[0-9]{1,5})?(/(([A-Za-z0-9._~!$&'()*+,;=@-]|%[0-9A-Fa-f]{2})+/)*([A-Za-z0-9._~!$&'()*+,;=@-]|%[0-9A-Fa-f]{2})*)?|/?(([A-Za-z0-9._~!$&'()*+,;=@-]|%[0-9A-Fa-f]{2})+/)*([A-Za-z0-9._~!$&'()*+,;=@-]|%[0-9A-Fa-f]{2})*)(\?([A-Za-z0-9._~!$&'()*+,;=:@/?-]|%[0-9A-Fa-f]{2})*)?(#([A-Za-z0-9._~!$&'()*+,;=:@/?-]|%[0-9A-Fa-f]{2})*)?$`)
	rxSimpleI = regexp.MustCompile(`^(//([a-z0-9-]|[\x{a0}-\x{d7ff}])+(\.([a-z0-9-]|[\x{a0}-\x{d7ff}])+)*(:[0-9]{1,5})?(/(([A-Za-z0-9._~!$&'()*+,;=@-]|[\x{a0}-\x{d7ff}]|%[0-9A-Fa-f]{2})+/)*([A-Za-z0-9._~!$&'()*+,;=@-]|[\x{a0}-\x{d7ff}]|%[0-9A-Fa-f]{2})*)?|/?(([A-Za-z0-9._~!$&'()*+,;=@-]|[\x{a0}-\x{d7ff}]|%[0-9A-Fa-f]{2})+/)*([A-Za-z0-9._~!$&'()*+,;=@-]|[\x{a0}-\x{d7ff}]|%[0-9A-Fa-f]{2})*)$`)
	rxBadPct  = regexp.MustCompile(`^[^?#]*%([^0-9A-Fa-f]|[0-9A-Fa-f]([^0-9A-Fa-f]|$)|$)`)
)

func isURI(s string, ref, iri bool) tri {
	if strings.Contains(s, `\`) {
		return no
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] == 0x7f {
			if strings.IndexByte(s, '#') >= 0 && strings.IndexByte(s, '#') < i {
				return grey // not looked at in fragments
			}
			return no
		}
	}
	scheme := rxScheme.FindString(s)
	opaque := scheme != "" && !strings.HasPrefix(s[len(scheme):], "/")
	if rxBadPct.MatchString(s) {
		if opaque {
			return grey
		}
		return no
	}
	if scheme == "" {
		if !ref {
			return no
		}
		// a colon in the first segment of a relative reference
		first := s
		if i := strings.IndexAny(first, "/?#"); i >= 0 {
			first = first[:i]
		}
		if strings.Contains(first, ":") {
			return no
		}
	}
	rest := s[len(scheme):]
	if rxSimple.MatchString(rest) {
		return yes
	}
	if iri && rxSimpleI.MatchString(rest) {
		return yes
	}
	return grey
}

var rxTemplateOK = regexp.MustCompile(`^((https?|ftp)://[a-z0-9]+(\.[a-z0-9]+)*)?(/([A-Za-z0-9._~-]|%[0-9A-Fa-f]{2}|\{[+#./;?&]?[A-Za-z0-9_]+(:[1-9][0-9]?|\*)?(,[A-Za-z0-9_]+(:[1-9][0-9]?|\*)?)*\})*)+$`)

func isURITemplate(s string) tri {
	if strings.Contains(s, `\`) {
		return no
	}
	depth := 0
	for i := 0; i < len(s); i++ {
		if (s[i] < 0x20 || s[i] == 0x7f) && !strings.Contains(s[:i], "#") {
			return no
		}
		switch s[i] {
		case '{':
			depth++
			if depth > 1 {
				return no
			}
		case '}':
			depth--
			if depth < 0 {
				return no
			}
		}
	}
	if depth != 0 {
		return no
	}
	if rxBadPct.MatchString(s) {
		if scheme := rxScheme.FindString(s); scheme != "" && !strings.HasPrefix(s[len(scheme):], "/") {
			return grey
		}
		return no
	}
	if rxTemplateOK.MatchString(s) && !strings.Contains(s, "//{") && !strings.HasPrefix(s, "//") {
		return yes
	}
	return grey
}
