package main

import (
	"encoding/json"
	"fmt"
)

// WellFormed predicts whether a schema compiles: "" if so, otherwise what is wrong with it.
func (u *Universe) WellFormed(n MNode) string {
	return u.wf(n, map[string]bool{}, "")
}

var jsonTypes = map[string]bool{"array": true, "boolean": true, "integer": true, "number": true, "null": true, "object": true, "string": true}

func isSchemaValue(v interface{}) bool {
	switch v.(type) {
	case map[string]interface{}, bool:
		return true
	}
	return false
}

func (u *Universe) wf(n MNode, seen map[string]bool, where string) string {
	if _, ok := n.V.(bool); ok {
		if n.Draft >= D6 {
			return ""
		}
		return where + ": boolean schema in draft-04"
	}
	s, ok := n.V.(obj)
	if !ok {
		return where + ": not a schema"
	}
	idKey := "$id"
	if n.Draft == D4 {
		idKey = "id"
	}
	if n.Draft == DH {
		if _, ok := s["id"]; ok {
			idKey = "id"
		}
	}
	if v, ok := s[idKey]; ok {
		if _, ok := v.(string); !ok {
			return where + ": identifier is not a string"
		}
	}
	if ref, ok := s["$ref"]; ok {
		rs, ok := ref.(string)
		if !ok {
			return where + ": $ref is not a string"
		}
		t, ok := u.Resolve(n.Base, rs, n.Draft)
		if !ok {
			return where + ": unresolvable " + rs
		}
		abs, _ := resolveURI(n.Base, rs)
		key := fmt.Sprint(abs, t.Draft)
		if seen[key] {
			return ""
		}
		seen[key] = true
		if !isSchemaValue(t.V) {
			return where + ": " + rs + " is not a schema"
		}
		return u.wf(t, seen, where+"->"+rs)
	}
	if id, ok := idOf(s, n.Draft); ok {
		abs, ok := resolveURI(n.Base, id)
		if !ok {
			u.grey = true
		}
		n.Base = abs
	}
	for _, k := range []string{"title", "description", "format"} {
		if v, ok := s[k]; ok {
			if _, ok := v.(string); !ok {
				return where + ": " + k + " is not a string"
			}
		}
	}
	sub := func(k string, v interface{}) string { return u.wf(u.child(n, v), seen, where+"/"+k) }
	schemaMap := func(k string) string {
		v, ok := s[k]
		if !ok {
			return ""
		}
		m, ok := v.(obj)
		if !ok {
			return where + ": " + k + " is not an object"
		}
		for _, e := range sortedKeys(m) {
			if k == "patternProperties" && re(e) == nil {
				return where + ": invalid pattern " + e
			}
			if k == "dependencies" {
				if l, ok := m[e].(arr); ok {
					for _, x := range l {
						if _, ok := x.(string); !ok {
							return where + ": dependency list"
						}
					}
					continue
				}
			}
			if w := sub(k+"/"+e, m[e]); w != "" {
				return w
			}
		}
		return ""
	}
	for _, k := range []string{"definitions", "properties", "patternProperties", "dependencies"} {
		if w := schemaMap(k); w != "" {
			return w
		}
	}
	if t, ok := s["type"]; ok {
		l, isList := t.(arr)
		if !isList {
			l = arr{t}
		}
		seenT := map[string]bool{}
		for _, x := range l {
			ts, ok := x.(string)
			if !ok || !jsonTypes[ts] || seenT[ts] {
				return where + ": type"
			}
			seenT[ts] = true
		}
	}
	for _, k := range []string{"additionalProperties", "additionalItems"} {
		switch v := s[k].(type) {
		case bool:
		case map[string]interface{}:
			if w := sub(k, v); w != "" {
				return w
			}
		default:
			if _, ok := s[k]; ok {
				return where + ": " + k
			}
		}
	}
	single := []string{"not"}
	if n.Draft >= D6 {
		single = append(single, "propertyNames", "contains")
	}
	if n.Draft >= D7 {
		single = append(single, "if", "then", "else")
	}
	for _, k := range single {
		if v, ok := s[k]; ok {
			if w := sub(k, v); w != "" {
				return w
			}
		}
	}
	if v, ok := s["items"]; ok {
		if l, ok := v.(arr); ok {
			for i, e := range l {
				if w := sub(fmt.Sprint("items/", i), e); w != "" {
					return w
				}
			}
		} else if w := sub("items", v); w != "" {
			return w
		}
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if v, ok := s[k]; ok {
			l, ok := v.(arr)
			if !ok {
				return where + ": " + k
			}
			for i, e := range l {
				if w := sub(fmt.Sprint(k, "/", i), e); w != "" {
					return w
				}
			}
		}
	}
	if v, ok := s["multipleOf"]; ok {
		nb, ok := v.(json.Number)
		if !ok || parseDec(string(nb)).sign() <= 0 {
			return where + ": multipleOf"
		}
	}
	for _, p := range [][2]string{{"minimum", "exclusiveMinimum"}, {"maximum", "exclusiveMaximum"}} {
		_, has := s[p[0]]
		if _, ok := s[p[0]].(json.Number); has && !ok {
			return where + ": " + p[0]
		}
		if v, ok := s[p[1]]; ok {
			_, isB := v.(bool)
			_, isN := v.(json.Number)
			okB := isB && has && (n.Draft == D4 || n.Draft == DH)
			okN := isN && n.Draft != D4
			if !okB && !okN {
				return where + ": " + p[1]
			}
		}
	}
	counts := map[string]int64{}
	for _, k := range []string{"minLength", "maxLength", "minProperties", "maxProperties", "minItems", "maxItems"} {
		if v, ok := s[k]; ok {
			c, ok := countOf(v)
			if !ok || c < 0 {
				return where + ": " + k
			}
			counts[k] = c
		}
	}
	for _, p := range [][2]string{{"minLength", "maxLength"}, {"minProperties", "maxProperties"}} {
		a, ok1 := counts[p[0]]
		b, ok2 := counts[p[1]]
		if ok1 && ok2 && a > b {
			return where + ": " + p[0] + " > " + p[1]
		}
	}
	if v, ok := s["pattern"]; ok {
		p, ok := v.(string)
		if !ok || re(p) == nil {
			return where + ": pattern"
		}
	}
	if v, ok := s["required"]; ok {
		l, ok := v.(arr)
		if !ok {
			return where + ": required"
		}
		seenR := map[string]bool{}
		for _, x := range l {
			rs, ok := x.(string)
			if !ok || seenR[rs] {
				return where + ": required"
			}
			seenR[rs] = true
		}
	}
	if v, ok := s["uniqueItems"]; ok {
		if _, ok := v.(bool); !ok {
			return where + ": uniqueItems"
		}
	}
	if v, ok := s["enum"]; ok {
		l, ok := v.(arr)
		if !ok {
			return where + ": enum"
		}
		seenE := map[string]bool{}
		for _, x := range l {
			k := eqKey(x)
			if seenE[k] {
				return where + ": enum"
			}
			seenE[k] = true
		}
	}
	return ""
}
