package ai

import (
	"strings"
	"unicode"
)

// SnakeToCamel is the documented conversion of the snaker library.
func SnakeToCamel(s string) string { return snakeToCamel(s, true) }

func snakeToCamel(s string, upper bool) string {
	out := ""
	for i, w := range strings.Split(s, "_") {
		if w == "oauth" {
			out += "OAuth"
			continue
		}
		if upper || i > 0 {
			if u := strings.ToUpper(w); initialisms[u] {
				out += u
				continue
			}
		}
		if (upper || i > 0) && w != "" {
			r := []rune(w)
			r[0] = unicode.ToUpper(r[0])
			w = string(r)
		}
		out += w
	}
	return out
}

var initialisms = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields("ACL API ASCII CPU CSS DNS EOF ETA GPU GUID HTML HTTP HTTPS ID IP JSON LHS OS QPS RAM RHS RPC SLA SMTP SQL SSH TCP TLS TTL UDP UI UID UUID URI URL UTF8 VM XML XMPP XSRF XSS OAuth") {
		m[w] = true
	}
	return m
}()
