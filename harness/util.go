package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode"
)

func mustJSON(src, dst interface{}) {
	b, err := json.Marshal(src)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, dst); err != nil {
		panic(err)
	}
}

func jsonText(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// norm folds a name or an identifier to what survives every identifier
// mangling: letters and digits, case folded. An X before something that has no
// upper case is what makes an identifier exported.
func norm(s string) string {
	var rs []rune
	for _, r := range s {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			rs = append(rs, unicode.ToLower(r))
		}
	}
	for len(rs) > 1 && rs[0] == 'x' && unicode.ToUpper(rs[1]) == rs[1] {
		rs = rs[1:]
	}
	return string(rs)
}

func upper1(s string) string {
	for i, r := range s {
		if i == 0 {
			return string(unicode.ToUpper(r)) + s[len(string(r)):]
		}
	}
	return s
}

// segUpper upper-cases the first letter of every ':'- and '.'-separated
// segment and joins the segments.
func segUpper(name string) string {
	var b strings.Builder
	for _, s := range strings.Split(name, ":") {
		b.WriteString(upper1(s))
	}
	s2 := b.String()
	b.Reset()
	for _, s := range strings.Split(s2, ".") {
		b.WriteString(upper1(s))
	}
	return b.String()
}

func localPart(s string) string {
	if i := strings.LastIndex(s, ":"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func trunc(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d more bytes)", len(s)-n)
}

func containsInt(list []int, n int) bool {
	for _, x := range list {
		if x == n {
			return true
		}
	}
	return false
}
