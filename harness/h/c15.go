package h

import (
	"net/url"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"golang.org/x/net/html"
)

// A URL in its five parts (RFC 3986, appendix B). A part that is not there
// differs from an empty one.
type uri struct {
	scheme, auth, path, query, frag string
	hasScheme, hasAuth, hasQuery    bool
	hasFrag                         bool
}

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isNum(c byte) bool   { return c >= '0' && c <= '9' }
func hexVal(c byte) int {
	switch {
	case isNum(c):
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func split(s string) uri {
	var u uri
	if i := strings.IndexByte(s, '#'); i >= 0 {
		u.frag, u.hasFrag = s[i+1:], true
		s = s[:i]
	}
	if i := strings.IndexByte(s, '?'); i >= 0 {
		u.query, u.hasQuery = s[i+1:], true
		s = s[:i]
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == ':' && i > 0 {
			u.scheme, u.hasScheme = strings.ToLower(s[:i]), true
			s = s[i+1:]
			break
		}
		if !(isAlpha(c) || i > 0 && (isNum(c) || c == '+' || c == '-' || c == '.')) {
			break
		}
	}
	if strings.HasPrefix(s, "//") {
		u.hasAuth = true
		s = s[2:]
		i := strings.IndexByte(s, '/')
		if i < 0 {
			i = len(s)
		}
		u.auth, s = s[:i], s[i:]
	}
	u.path = s
	return u
}

// canon is a part of a URL with one spelling for everything that may be
// spelled in two ways: characters with no meaning of their own are not
// encoded, characters that must be (or are, for Markdown) encoded are. An
// encoded character with a meaning differs from the character.
func canon(s string) string {
	out := make([]byte, 0, len(s)+8)
	enc := func(c byte) {
		out = append(out, '%', "0123456789ABCDEF"[c>>4], "0123456789ABCDEF"[c&15])
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '%' && i+2 < len(s) && hexVal(s[i+1]) >= 0 && hexVal(s[i+2]) >= 0 {
			c = byte(hexVal(s[i+1])<<4 | hexVal(s[i+2]))
			if isAlpha(c) || isNum(c) || c == '-' || c == '.' || c == '_' || c == '~' {
				out = append(out, c)
			} else {
				enc(c)
			}
			i += 2
			continue
		}
		if c <= ' ' || c >= 0x7f || c == '[' || c == ']' || c == '(' || c == ')' || c == '<' || c == '>' || c == '"' || c == '\\' || c == '^' || c == '`' || c == '{' || c == '|' || c == '}' || c == '#' {
			enc(c)
		} else {
			out = append(out, c)
		}
	}
	return string(out)
}

// formValue decodes a key or a value of a query.
func formValue(s string) string {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '+' {
			c = ' '
		} else if c == '%' && i+2 < len(s) && hexVal(s[i+1]) >= 0 && hexVal(s[i+2]) >= 0 {
			c = byte(hexVal(s[i+1])<<4 | hexVal(s[i+2]))
			i += 2
		}
		out = append(out, c)
	}
	return string(out)
}

// sameQuery: the same keys and values in the same order.
func sameQuery(a, b string) bool {
	x, y := strings.Split(a, "&"), strings.Split(b, "&")
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		k, v, ok := strings.Cut(x[i], "=")
		k2, v2, ok2 := strings.Cut(y[i], "=")
		if ok != ok2 || formValue(k) != formValue(k2) || formValue(v) != formValue(v2) {
			return false
		}
	}
	return true
}

// removeDots is RFC 3986, 5.2.4.
func removeDots(path string) string {
	if path == "" {
		return ""
	}
	var out []string
	segs := strings.Split(path, "/")
	for i, s := range segs {
		last := i == len(segs)-1
		switch s {
		case ".":
			if last {
				out = append(out, "")
			}
		case "..":
			if len(out) > 1 || len(out) == 1 && out[0] != "" {
				out = out[:len(out)-1]
			}
			if last {
				out = append(out, "")
			}
		default:
			out = append(out, s)
		}
	}
	return strings.Join(out, "/")
}

// resolve is RFC 3986, 5.2.2.
func (b uri) resolve(r uri) uri {
	t := r
	if r.hasScheme {
		t.path = removeDots(r.path)
		return t
	}
	t.scheme, t.hasScheme = b.scheme, true
	if r.hasAuth {
		t.path = removeDots(r.path)
		return t
	}
	t.auth, t.hasAuth = b.auth, true
	if r.path == "" {
		t.path = b.path
		if !r.hasQuery {
			t.query, t.hasQuery = b.query, b.hasQuery
		}
		return t
	}
	if r.path[0] == '/' {
		t.path = removeDots(r.path)
	} else if b.path == "" {
		t.path = removeDots("/" + r.path)
	} else {
		t.path = removeDots(b.path[:strings.LastIndexByte(b.path, '/')+1] + r.path)
	}
	return t
}

// destOf is the destination the converter writes.
func destOf(img bool, v, domain string) string {
	var n *html.Node
	if img {
		n = attr(elem("img"), "src", v)
	} else {
		n = attr(elem("a", text("x")), "href", v)
	}
	var opts []converter.ConvertOptionFunc
	if domain != "" {
		opts = append(opts, converter.WithDomain(domain))
	}
	b, err := stdConv().ConvertNode(doc(elem("p", n)), opts...)
	sym.Assert(err == nil, "no error")
	out := string(b)
	sym.Observe("out", out)
	a := "[x]("
	if img {
		a = "![]("
	}
	sym.Assert(strings.HasPrefix(out, a) && strings.HasSuffix(out, ")"), "a link")
	return string(decodeInline([]byte(out[len(a) : len(out)-1])))
}

// trimmed is a URL without the white space around it and with the line ends
// and tabs inside of it encoded.
func trimmedURL(s string) string {
	for i := 0; i < len(s); i++ {
		// what Unicode calls white space beyond ASCII is trimmed, too
		sym.Assume(!(s[i] == 0xc2 && i+1 < len(s) && (s[i+1] == 0x85 || s[i+1] == 0xa0)) &&
			!(s[i] == 0xe1 && i+2 < len(s) && s[i+1] == 0x9a) &&
			!(s[i] >= 0xe2 && s[i] <= 0xe3 && i+2 < len(s) && s[i+1] <= 0x81))
	}
	return strings.Trim(s, " \t\n\v\f\r")
}

// sameParts compares everything but what is not there.
func sameParts(got, want uri, msg string) {
	sym.Assert(got.scheme == want.scheme && got.hasScheme == want.hasScheme, msg+": the scheme")
	sym.Assert(formValue(strings.ReplaceAll(got.auth, "+", "%2B")) == formValue(strings.ReplaceAll(want.auth, "+", "%2B")), msg+": the authority")
	sym.Assume(canon(want.path) != "%2A") // url.URL writes the path "%2A" as "*"
	sym.Assert(canon(got.path) == canon(want.path), msg+": the path")
	sym.Assert(sameQuery(got.query, want.query), msg+": the query")
	for i := 0; i < len(want.frag); i++ {
		sym.Assume(want.frag[i] >= ' ' && want.frag[i] != 0x7f && want.frag[i] != '#') // no control characters and no other # there
	}
	sym.Assert(canon(got.frag) == canon(want.frag), msg+": the fragment")
}

func urlText() string {
	s := sym.ParamStr("pre", "")
	if a := sym.ParamStr("alpha", ""); a != "" {
		s += sym.StrIn("url", sym.Param("n", 2), a)
	} else {
		s += sym.Str("url", sym.Param("n", 2))
	}
	s += sym.ParamStr("post", "")
	noMarkers(s)
	return s
}

// C15: without a domain a URL means the same.
func C15_same() {
	s := trimmedURL(urlText())
	if s == "" {
		return
	}
	got := destOf(sym.Param("img", 0) == 1, s, "")
	sym.Known("KF4", entityRef(s))
	if s == "#" {
		sym.Assert(got == "#", "# stays")
		return
	}
	sameParts(split(got), split(s), "same")
}

// C15: with a domain a relative URL is resolved, an absolute one stays.
func C15_resolve() {
	s := trimmedURL(urlText())
	if s == "" {
		return
	}
	domain := sym.ParamStr("domain", "http://a.b/c/d?e")
	base := split(domain)
	if !base.hasScheme {
		base = split("http://" + domain)
	}
	base.path = removeDots(base.path)
	got := destOf(sym.Param("img", 0) == 1, s, domain)
	sym.Known("KF4", entityRef(s))
	if s == "#" {
		sym.Assert(got == "#", "# stays")
		return
	}
	r := split(s)
	// No host has one of these characters: such a URL is left alone.
	sym.Assume(!strings.ContainsAny(r.auth, " \"<>\\^`{|}"))
	if strings.Contains(r.auth, "@") {
		for i := 0; i < len(r.auth); i++ {
			sym.Assume(r.auth[i] < 0x80)
		}
	}
	if _, err := url.Parse(strings.NewReplacer("\n", "%0A", "\t", "%09").Replace(s)); err != nil || r.scheme == "data" {
		sameParts(split(got), r, "unchanged")
		return
	}
	if r.hasScheme && !r.hasAuth && !strings.HasPrefix(r.path, "/") {
		sameParts(split(got), r, "opaque")
		return
	}
	// A // without a host is no URL.
	sym.Assume(!(r.hasAuth && r.auth == ""))
	want := base.resolve(r)
	sym.Assume(!strings.HasPrefix(want.path, "//"))
	sameParts(split(got), want, "resolved")
}
