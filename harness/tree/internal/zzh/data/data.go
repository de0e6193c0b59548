// Package data holds the harnesses of storages, queries, cookies, header values, escaping, paths
// and the configuration.
package data

import (
	"strconv"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/http/query"
	"github.com/indigo-web/indigo/internal/keyvalue"
	"github.com/indigo-web/indigo/internal/pathlib"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/utils/uf"
)

// token is a character of the names keys are made of.
func token(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_'
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c | 0x20
	}
	return c
}

func same(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if lower(a[i]) != lower(b[i]) {
			return false
		}
	}
	return true
}

func word(label string, n int) []byte {
	b := sym.Bytes(label, n)
	for _, c := range b {
		sym.Assume(token(c))
	}
	return b
}

type pair struct{ key, value string }

func agree(s *keyvalue.Storage, pairs []pair, q string) {
	sym.Assert(s.Len() == len(pairs), "the number of pairs differs from the number of additions")
	var values []string
	for _, p := range pairs {
		if same(p.key, q) {
			values = append(values, p.value)
		}
	}
	got := s.Values(q)
	sym.Assert(len(got) == len(values), "a key has more or fewer values than were added")
	for i := range values {
		sym.Assert(got[i] == values[i], "the values of a key differ from the added ones or are out of order")
	}
	first, found := s.Get(q)
	sym.Assert(found == (len(values) > 0) && s.Has(q) == found, "a key is found although never added, or lost")
	sym.ObserveBool("found", found)
	if found {
		sym.Reach("hit")
		sym.Assert(first == values[0] && s.Value(q) == values[0] && s.ValueOr(q, "or") == values[0], "a key has another value than the first added one")
	} else {
		sym.Reach("miss")
		sym.Assert(first == "" && s.Value(q) == "" && s.ValueOr(q, "or") == "or", "a missing key has a value")
	}
	var unique []string
	for i, p := range pairs {
		dup := false
		for _, prev := range pairs[:i] {
			dup = dup || same(prev.key, p.key)
		}
		if !dup {
			unique = append(unique, p.key)
		}
	}
	keys := s.Keys()
	sym.Assert(len(keys) == len(unique), "the listed keys are not the distinct ones")
	for i := range unique {
		sym.Assert(keys[i] == unique[i], "the listed keys are not the distinct ones in order of addition")
	}
	all := s.Unwrap()
	sym.Assert(len(all) == len(pairs), "the revealed pairs are not the added ones")
	for i, p := range pairs {
		sym.Assert(all[i].Key == p.key && all[i].Value == p.value, "the revealed pairs are not the added ones")
	}
	it, i := s.Iter(), 0
	for el, cont := it.Next(); cont; el, cont = it.Next() {
		sym.Assert(i < len(pairs) && el.Key == pairs[i].key && el.Value == pairs[i].value, "iterating yields other pairs than the added ones")
		i++
	}
	sym.Assert(i == len(pairs), "iterating yields fewer pairs than were added")
	// only asking for the values of a key again may overwrite them, and the same with the keys
	for i := range values {
		sym.Assert(got[i] == values[i], "the values of a key are overwritten by other questions")
	}
	s.Values(q)
	for i := range unique {
		sym.Assert(keys[i] == unique[i], "the listed keys are overwritten by other questions")
	}
}

// Storage: k additions (keys of up to n characters living in memory that is reused afterwards),
// optionally cleared in between; the clone outlives the reuse.
func Storage() {
	k, n, clear := sym.Param("k", 2), sym.Param("n", 2), sym.Param("clear", -1)
	var s *keyvalue.Storage
	switch sym.Param("new", 0) {
	case 0:
		s = keyvalue.New()
	case 1:
		s = keyvalue.NewPreAlloc(sym.Param("pre", 1))
	case 2:
		s = headers.NewPrealloc(k)
	}
	var (
		pairs []pair
		mem   [][]byte
	)
	for i := 0; i < sym.Param("pad", 0); i++ {
		key := "pad-" + strconv.Itoa(i)
		s.Add(key, key)
		pairs = append(pairs, pair{key, key})
	}
	for i := 0; i < k; i++ {
		if i == clear {
			s.Clear()
			pairs = nil
		}
		key := word("key", sym.Choice("kn", n+1))
		value := sym.Bytes("value", sym.Choice("vn", 2))
		if long := sym.Param("long", 0); long > 0 {
			value = append(value, strings.Repeat("v", long)...)
			key = append(key, strings.Repeat("k", long)...)
		}
		mem = append(mem, key, value)
		sym.Assert(s.Add(uf.B2S(key), uf.B2S(value)) == s, "adding does not return the storage")
		pairs = append(pairs, pair{string(key), string(value)})
	}
	q := string(word("q", sym.Choice("qn", n+2)))
	agree(s, pairs, q)
	clone := s.Clone()
	agree(clone, pairs, q)
	// the memory the strings are made of gets reused, and the original goes on being used
	for _, m := range mem {
		for i := range m {
			m[i] = '#'
		}
	}
	s.Clear().Add("other", "pair")
	agree(clone, pairs, q)
	clone.Add("third", "pair")
	agree(s, []pair{{"other", "pair"}}, q)
	sym.Reach("done")
}

// FromMap: every value of a map is found, in order.
func FromMap() {
	k := sym.Param("k", 2)
	m := map[string][]string{}
	var values [2][]string
	for i := 0; i < k; i++ {
		which := sym.Choice("which", 2)
		v := sym.String("value", 1)
		values[which] = append(values[which], v)
	}
	m["Some-Key"], m["other"] = values[0], values[1]
	s := headers.NewFromMap(m)
	sym.Assert(s.Len() == k, "values of the map are lost or added")
	for i, name := range []string{"some-KEY", "other"} {
		got := s.Values(name)
		sym.Assert(len(got) == len(values[i]), "a key of the map has more or fewer values")
		for j := range got {
			sym.Assert(got[j] == values[i][j], "values of the map differ or are out of order")
		}
	}
	sym.Reach("done")
}

func hexval(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func unescape(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			out = append(out, ' ')
		case '%':
			if i+2 >= len(s) || hexval(s[i+1]) < 0 || hexval(s[i+2]) < 0 {
				return "", false
			}
			out = append(out, byte(hexval(s[i+1])<<4|hexval(s[i+2])))
			i += 2
		default:
			out = append(out, s[i])
		}
	}
	return string(out), true
}

// wantQuery is the reference parser.
func wantQuery(raw string) (pairs []pair, ok bool) {
	for begin := 0; begin < len(raw); {
		end := begin
		for end < len(raw) && raw[end] != '&' {
			end++
		}
		part := raw[begin:end]
		begin = end + 1
		eq := 0
		for eq < len(part) && part[eq] != '=' {
			eq++
		}
		if eq == len(part) {
			flag, ok := unescape(part)
			if !ok {
				return nil, false
			}
			pairs = append(pairs, pair{flag, "1"})
			continue
		}
		if eq == 0 {
			return nil, false
		}
		key, ok1 := unescape(part[:eq])
		value, ok2 := unescape(part[eq+1:])
		if !ok1 || !ok2 {
			return nil, false
		}
		pairs = append(pairs, pair{key, value})
	}
	return pairs, true
}

func template(t, n int) string {
	w := func(k int) string { return sym.String("x", k) }
	switch t {
	case 0:
		return w(n)
	case 1:
		return "a=" + w(n) + "&b=2"
	case 2:
		return "x=y&" + w(n) + "=z"
	case 3:
		return "a=b&c=%" + w(n)
	case 4:
		return "k" + w(n) + "&flag"
	case 5:
		return "a=1&a=" + w(n) + "&A=3"
	}
	return "first=%41+" + w(n) + "&" + w(n)
}

// Query: parsing yields exactly the pairs of the raw query, on every access, and leaves the raw
// one as it is; the same object is set twice (the second query must not see the first).
func Query() {
	n, t := sym.Param("n", 3), sym.Param("t", 0)
	s := keyvalue.New()
	q := query.New(s)
	if prev := sym.Param("prev", 0); prev > 0 {
		q.Set([]byte([]string{"", "old=1&key=2", "old=%zz", "=bad", "flag"}[prev]))
		if sym.Param("touch", 1) == 1 {
			_, _ = q.Get("old")
		}
	}
	raw := template(t, n)
	mem := []byte(raw)
	q.Set(mem)
	sym.Assert(string(q.Raw()) == raw, "the raw query differs from the one that was set")
	pairs, ok := wantQuery(raw)
	for access := 0; access < 2; access++ {
		params, err := q.Unwrap()
		sym.ObserveBool("ok", err == nil)
		sym.Assert((err == nil) == ok, "a query is refused although well-formed, or accepted although malformed")
		if !ok {
			sym.Reach("bad")
			sym.Assert(params == nil, "a malformed query yields parameters")
			_, err := q.Get("a")
			sym.Assert(err != nil && err != query.ErrNoSuchKey, "reading a key of a malformed query does not report it")
			continue
		}
		sym.Reach("good")
		all := params.Unwrap()
		sym.ObserveInt("len", len(all))
		sym.Assert(len(all) == len(pairs), "the number of parameters differs")
		for i, p := range pairs {
			sym.ObserveStr("key", all[i].Key)
			sym.ObserveStr("value", all[i].Value)
			sym.Assert(all[i].Key == p.key && all[i].Value == p.value, "a parameter differs from the query")
		}
		for _, name := range []string{"a", "old", "flag"} {
			want, found := "", false
			for _, p := range pairs {
				if !found && same(p.key, name) {
					want, found = p.value, true
				}
			}
			value, err := q.Get(name)
			if found {
				sym.Assert(err == nil && value == want, "a key has another value than the first one in the query")
			} else {
				sym.Assert(err == query.ErrNoSuchKey && value == "", "a missing key is not reported as missing")
			}
		}
		sym.Assert(string(mem) == raw && string(q.Raw()) == raw, "parsing changes the raw query")
	}
}

// Cookies: a Cookie header made of well-formed pairs yields them all, in order; pairs without a
// name are refused; whatever is accepted holds nothing that is not in the header.
func Cookies() {
	k, n := sym.Param("k", 2), sym.Param("n", 2)
	var (
		pairs []pair
		data  string
		bad   bool
		open  bool
	)
	for i := 0; i < k; i++ {
		key := sym.String("key", sym.Choice("kn", n+1))
		value := sym.String("value", sym.Choice("vn", n+1))
		for j := 0; j < len(key); j++ {
			sym.Assume(key[j] != '=' && key[j] != ';' && key[j] != ' ')
		}
		for j := 0; j < len(value); j++ {
			sym.Assume(value[j] != ';')
		}
		bad = bad || key == ""
		pairs = append(pairs, pair{key, value})
		data += key + "=" + value
		switch tail := sym.Choice("tail", 3); {
		case tail == 0 && i == k-1:
			open = true
		case tail == 1:
			data += ";"
		default:
			data += "; "
		}
	}
	garbage := ""
	if sym.Param("garbage", 0) == 1 && !open {
		garbage = sym.String("garbage", n)
		for j := 0; j < len(garbage); j++ {
			sym.Assume(garbage[j] != '=' && garbage[j] != ' ')
		}
		bad = bad || garbage != ""
	}
	jar := cookie.NewJar()
	err := cookie.Parse(jar, data+garbage)
	sym.ObserveBool("ok", err == nil)
	if bad {
		sym.Reach("bad")
		sym.Assert(err == cookie.ErrBadCookie, "a malformed cookie header is accepted")
		return
	}
	sym.Reach("good")
	sym.Assert(err == nil, "a well-formed cookie header is refused")
	all := jar.Unwrap()
	sym.Assert(len(all) == len(pairs), "cookies are lost or invented")
	for i, p := range pairs {
		sym.Assert(all[i].Key == p.key && all[i].Value == p.value, "a cookie differs from the one in the header")
	}
}

// CookieBytes: for any header at all, what is accepted is the reference split of it.
func CookieBytes() {
	data := sym.String("data", sym.Param("n", 4))
	jar := cookie.NewJarPreAlloc(1)
	err := cookie.Parse(jar, data)
	var pairs []pair
	ok, rest := true, data
	for rest != "" {
		eq := 0
		for eq < len(rest) && rest[eq] != '=' {
			eq++
		}
		if eq == 0 || eq == len(rest) {
			ok = false
			break
		}
		end := eq
		for end < len(rest) && rest[end] != ';' {
			end++
		}
		pairs = append(pairs, pair{rest[:eq], rest[eq+1 : end]})
		if end == len(rest) {
			break
		}
		rest = rest[end+1:]
		if rest != "" && rest[0] == ' ' {
			rest = rest[1:]
		}
	}
	sym.ObserveBool("ok", err == nil)
	sym.Assert((err == nil) == ok, "a cookie header is refused although well-formed, or accepted although malformed")
	if !ok {
		sym.Reach("bad")
		return
	}
	sym.Reach("good")
	all := jar.Unwrap()
	sym.Assert(len(all) == len(pairs), "cookies are lost or invented")
	for i, p := range pairs {
		sym.Assert(all[i].Key == p.key && all[i].Value == p.value, "a cookie differs from the one in the header")
	}
}

// CookieBuild: a cookie holds exactly what the builder was told.
func CookieBuild() {
	str := func(label string) string { return sym.String(label, sym.Choice(label+"n", 3)) }
	name, value, path, domain, site := str("name"), str("value"), str("path"), str("domain"), str("site")
	age, secure, only := int(int32(sym.Uint64("age"))), sym.Bool("secure"), sym.Bool("only")
	first := cookie.Build(name, value).Path(path)
	b := first
	if sym.Bool("twice") {
		// what was set before is replaced
		b = b.Path("old").Path(path).Domain("old").MaxAge(7).SameSite("old").Secure(sym.Bool("secure0")).HttpOnly(sym.Bool("only0"))
	}
	c := b.Domain(domain).MaxAge(age).SameSite(site).Secure(secure).HttpOnly(only).Cookie()
	sym.Assert(c.Name == name && c.Value == value && c.Path == path && c.Domain == domain &&
		c.MaxAge == age && c.SameSite == site && c.Secure == secure && c.HttpOnly == only && c.Expires.IsZero(),
		"a cookie differs from what the builder was told")
	d := first.Cookie()
	sym.Assert(d.Domain == "" && d.MaxAge == 0 && !d.Secure && !d.HttpOnly && d.Path == path, "builders derived from each other interfere")
	sym.Reach("done")
}

// Params: the parameters of a header value built of a value and k parameters.
func Params() {
	k, n := sym.Param("k", 2), sym.Param("n", 2)
	part := func(label string, min int) string {
		b := sym.Bytes(label, min+sym.Choice(label+"n", n+1-min))
		for _, c := range b {
			sym.Assume(c > ' ' && c < 0x7f && c != ';' && c != '=' && c != '"')
		}
		return string(b)
	}
	value := part("value", 0)
	str := value
	var params []pair
	for i := 0; i < k; i++ {
		p := pair{part("key", 1), part("param", 0)}
		str += ";"
		str += []string{"", " ", "\t", "  "}[sym.Choice("ows", sym.Param("ows", 2))]
		str += p.key + "=" + p.value
		params = append(params, p)
	}
	got := headers.ValueOf(str)
	sym.ObserveStr("value", got)
	sym.Assert(got == value, "the value of a header is not what precedes its parameters")
	key := part("q", 1)
	want, found := "", false
	for _, p := range params {
		if !found && p.key == key {
			want, found = p.value, true
		}
	}
	of := headers.ParamOf(str, key)
	or := headers.ParamOfOr(str, key, "or")
	sym.ObserveStr("of", of)
	sym.ObserveStr("or", or)
	if found {
		sym.Reach("found")
		sym.Assert(of == want && or == want, "a parameter has another value than in the header")
	} else {
		sym.Reach("missing")
		sym.Assert(of == "" && or == "or", "a parameter is found although missing")
	}
	sym.Assert(headers.CharsetOf(str+";charset="+value) == pick(params, "charset", value), "the charset is not found")
	sym.Assert(headers.CharsetOf(str) == pick(params, "charset", headers.DefaultEncoding), "the charset is not the one of the header, or not the default one")
}

func pick(params []pair, key, or string) string {
	for _, p := range params {
		if p.key == key {
			return p.value
		}
	}
	return or
}

// Quality: the digits behind q=0. make the quality, everything else the default.
func Quality() {
	n := sym.Param("n", 2)
	tail := sym.Bytes("tail", n)
	num, digits := 0, n > 0
	for _, c := range tail {
		sym.Assume(c > ' ' && c < 0x7f && c != ';' && c != '=' && c != '+' && c != '-' && c != '_')
		digits = digits && c >= '0' && c <= '9'
		num = num*10 + int(c-'0')
	}
	if !digits {
		num = 9
	} else {
		sym.Reach("digits")
	}
	q := "q=0." + string(tail)
	for _, str := range []string{"text/html;" + q, "text/html; " + q, "text/html;charset=utf8;" + q, "*;" + q + ";a=b"} {
		got := headers.QualityOf(str)
		sym.ObserveInt("q", got)
		sym.Assert(got == num, "the quality of a header value differs")
	}
	sym.Assert(headers.QualityOf("text/html;a=b") == 9 && headers.QualityOf("text/html") == 9, "the default quality differs")
}

// HeaderBytes: the accessors survive every value.
func HeaderBytes() {
	str, key := sym.String("str", sym.Param("n", 4)), sym.String("key", sym.Param("k", 1))
	_ = headers.ParamOf(str, key)
	_ = headers.CharsetOf(str)
	_ = headers.QualityOf(str)
	got := headers.ValueOf(str)
	end := 0
	for end < len(str) && str[end] != ';' {
		end++
	}
	sym.Assert(got == str[:end], "the value of a header is not what precedes the first semicolon")
	sym.Reach("done")
}

// Escape: whatever the path, its escaped form is printable, and the identity on printable ones.
func Escape() {
	n := sym.Param("n", 3)
	path := sym.String("path", n)
	got := http.Escape(path)
	sym.ObserveStr("got", got)
	printable := true
	j := 0
	for i := 0; i < n; i++ {
		c := path[i]
		if c >= 0x20 && c <= 0x7e {
			sym.Assert(j < len(got) && got[j] == c, "a printable character is changed or lost")
			j++
			continue
		}
		printable = false
		sym.Assert(j+1 < len(got) && got[j] == '\\' && got[j+1] >= 0x20 && got[j+1] <= 0x7e, "an unprintable byte is not escaped")
		switch c {
		case '\n':
			sym.Assert(got[j+1] == 'n', "a line feed is not escaped as \\n")
		case '\r':
			sym.Assert(got[j+1] == 'r', "a carriage return is not escaped as \\r")
		case '\t':
			sym.Assert(got[j+1] == 't', "a tab is not escaped as \\t")
		case 0:
			sym.Assert(got[j+1] == '0', "a zero byte is not escaped as \\0")
		}
		j += 2
	}
	sym.Assert(j == len(got), "the escaped path holds more than the path")
	if printable {
		sym.Reach("printable")
	} else {
		sym.Reach("escaped")
	}
}

// Replace: a path under the prefix is mapped under the root, whatever was mapped before.
func Replace() {
	n := sym.Param("n", 3)
	prefix := []string{"/", "/static", "/static/", "/a/b", "/a/b/"}[sym.Param("prefix", 0)]
	root := []string{".", "./", "./static", "/srv/www/", "files", "/"}[sym.Param("root", 0)]
	p := pathlib.NewPath(prefix, root)
	sep := func(s string) string {
		if s[len(s)-1] != '/' {
			return s + "/"
		}
		return s
	}
	for i := 0; i < sym.Param("k", 2); i++ {
		rest := sym.String("rest", sym.Choice("n", n+1))
		p.Set(sep(prefix) + rest)
		got := p.Relative()
		sym.ObserveStr("got", got)
		sym.Assert(got == sep(root)+rest, "the path under the prefix is not mapped to the same path under the root")
	}
	sym.Reach("done")
}

// Fill: every setting left out gets its default, every other one is kept; a window of them is
// arbitrary, all others are either left out or set.
func Fill() {
	num := func(label string) int64 { return int64(sym.Uint64(label)) }
	var src config.Config
	def := config.Default()
	from, size, rest := sym.Param("from", 0), sym.Param("size", 4), sym.Param("rest", 0)
	vs := make([]int64, len(settings))
	for i := range settings {
		if i >= from && i < from+size {
			vs[i] = num("v")
		} else {
			vs[i] = int64(rest * (i + 1))
		}
		settings[i].set(&src, vs[i])
	}
	custom := sym.Choice("custom", 3)
	switch custom {
	case 1:
		src.Headers.Default = map[string]string{"X-Mine": "1"}
	case 2:
		src.Headers.Default = map[string]string{}
	}
	got := config.Fill(src)
	for i, f := range settings {
		v, d, g := vs[i], f.get(&def), f.get(&got)
		sym.Assert(d != 0, "the setting "+f.name+" has no default")
		sym.Assert(v == 0 || g == v, "the setting "+f.name+" is not kept")
		sym.Assert(v != 0 || g == d, "the setting "+f.name+" is not replaced by its default")
	}
	if custom == 2 {
		sym.Assert(len(got.Headers.Default) == 0, "the custom default headers are not kept")
	} else if custom == 1 {
		sym.Assert(len(got.Headers.Default) == 1 && got.Headers.Default["X-Mine"] == "1", "the custom default headers are not kept")
	} else {
		sym.Assert(len(got.Headers.Default) == len(def.Headers.Default), "the default headers are not filled")
		for k, v := range def.Headers.Default {
			sym.Assert(got.Headers.Default[k] == v, "the default headers are not filled")
		}
	}
	sym.Reach("done")
}
