package leaf

import (
	"io"

	"github.com/indigo-web/indigo/http/coding"
	"github.com/indigo-web/indigo/internal/stash"
	"github.com/indigo-web/indigo/internal/strlenmap"
	"github.com/indigo-web/indigo/internal/types"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// LenMap: a history of k insertions with keys of up to n bytes, then a lookup of any key; and a
// lookup between every two insertions.
func LenMap() {
	k, n := sym.Param("k", 3), sym.Param("n", 2)
	m := strlenmap.New[int]()
	var keys []string
	look := func() {
		q := sym.String("q", sym.Choice("qn", n+2))
		if l := sym.Param("long", 0); l > 0 && sym.Bool("qlong") {
			q = long(l, "key") + q
		}
		v, ok := m.Get(q)
		want, found := 0, false
		for i, key := range keys {
			if !found && key == q {
				want, found = i+1, true
			}
		}
		if found {
			sym.Reach("hit")
		} else {
			sym.Reach("miss")
		}
		sym.Assert(ok == found, "a key is found although never inserted, or lost")
		sym.Assert(v == want, "a key has another value than the one inserted first")
	}
	mid := sym.Param("mid", 0)
	// further keys, some of them long ones
	for i := 0; i < sym.Param("pad", 0); i++ {
		key := long(i*sym.Param("step", 1)%40, "key")
		keys = append(keys, key)
		m.Insert(key, len(keys))
	}
	// further keys of one length, all different and in no order
	for i := 0; i < sym.Param("same", 0); i++ {
		key := string([]byte{byte(i*7 + 3), byte(i * 5)})[:n]
		keys = append(keys, key)
		m.Insert(key, len(keys))
	}
	// further keys of neighbouring lengths, longer ones first, some of them twice
	mix := sym.Param("mix", 0)
	for i := 0; i < mix; i++ {
		key := long(n+(i*i+2)%3, "mix")
		key = string([]byte{byte('a' + i*3%7)}) + key[1:]
		keys = append(keys, key)
		m.Insert(key, len(keys))
	}
	for i := 0; i < k; i++ {
		if i == mid {
			look()
		}
		key := sym.String("key", sym.Choice("kn", n+1))
		if l := sym.Param("long", 0); l > 0 && sym.Bool("klong") {
			key = long(l, "key") + key
		}
		keys = append(keys, key)
		m.Insert(key, len(keys))
	}
	look()
	if mid == 1 || mix > 0 {
		// looking something up changes nothing
		look()
		for i, key := range keys {
			want := 0
			for j := i; j >= 0; j-- {
				if keys[j] == key {
					want = j + 1
				}
			}
			v, ok := m.Get(key)
			sym.Assert(ok && v == want, "an inserted key is lost, or has another value than the one inserted first")
		}
	}
}

// Stash: a source of k pieces, each of up to m bytes in a buffer the source reuses, any of which
// may come with an error; r reads of any sizes up to m+1.
func Stash() {
	k, m, r, big := sym.Param("k", 2), sym.Param("m", 2), sym.Param("r", 3), sym.Param("big", 0)
	shared := make([]byte, m+big)
	var (
		all   []byte
		calls int
		fault error
		got   []byte
	)
	warm := sym.Param("warm", 0)
	src := func() ([]byte, error) {
		sym.Assert(fault == nil, "the source is asked again after it failed")
		sym.Assert(len(all) == len(got), "a read waits for the source although it could deliver bytes")
		calls++
		if warm > 0 {
			// fixed pieces of several sizes, some of them empty
			n := copy(shared, long(calls*5%(m+big+1), "piece"))
			all = append(all, shared[:n]...)
			return shared[:n], nil
		}
		n := sym.Choice("len", m+1)
		for i := 0; i < n; i++ {
			shared[i] = sym.Byte("data")
		}
		if n > 0 {
			// a long piece, most of which is fixed
			for i := 0; i < big; i++ {
				shared[n] = byte('a' + (calls*7+i)%26)
				n++
			}
		}
		all = append(all, shared[:n]...)
		if calls >= k {
			fault = io.EOF
		} else {
			switch sym.Choice("err", 3) {
			case 1:
				fault = io.EOF
			case 2:
				fault = io.ErrUnexpectedEOF
			}
		}
		return shared[:n], fault
	}
	reader := stash.New(src)
	for i := 0; warm > 0; i++ {
		p := make([]byte, i*3%(m+big+2))
		n, err := reader.Read(p)
		got = append(got, p[:n]...)
		sym.Assert(err == nil, "an error is made up")
		sym.Assert(len(got) <= len(all) && string(got) == string(all[:len(got)]), "bytes are lost, repeated or altered")
		if i > 5*sym.Param("warm", 0) {
			sym.Fail("a read makes no progress although data is available")
		}
		if calls >= warm {
			warm, calls = 0, 0
		}
	}
	for i := 0; i < r; i++ {
		if sym.Param("reset", -1) == i {
			reader.Reset()
			all, got, fault, calls = nil, nil, nil, 0
			sym.Reach("reset")
		}
		want := sym.Choice("want", m+2)
		if want > 1 {
			want += big * sym.Param("share", 1) / 2
		}
		p := make([]byte, want)
		before := calls
		n, err := reader.Read(p)
		sym.Assert(n >= 0 && n <= len(p), "more bytes are reported than fit")
		got = append(got, p[:n]...)
		sym.Assert(len(got) <= len(all) && string(got) == string(all[:len(got)]), "bytes are lost, repeated or altered")
		if err != nil {
			sym.Reach("err")
			sym.Assert(fault != nil, "an error is made up")
			sym.Assert(err == fault, "the error of the source is replaced")
			sym.Assert(len(got) == len(all), "the error is reported before the data that precedes it")
		} else if fault != nil {
			sym.Assert(len(got) < len(all), "the end of the stream is not reported")
		}
		if len(p) > 0 && n == 0 && err == nil {
			sym.Assert(calls > before, "a read makes no progress although data is available")
		}
	}
	sym.ObserveBytes("got", got)
	sym.Reach("done")
}

type closer struct {
	n   int
	err error
}

func (c *closer) Read(b []byte) (int, error) { return 0, io.EOF }
func (c *closer) Close() error               { c.n++; return c.err }

type plain struct{}

func (plain) Read(b []byte) (int, error) { return 0, io.EOF }

// Attachment: it keeps its reader and size, and closing it closes the reader once, if it can.
func Attachment() {
	size := int(sym.Uint64("size"))
	c := &closer{}
	if sym.Bool("fails") {
		c.err = io.ErrClosedPipe
	}
	a := types.NewAttachment(c, size)
	sym.ObserveInt("size", a.Size())
	sym.Assert(a.Size() == size, "an attachment reports another size")
	sym.Assert(a.Content() == io.Reader(c), "an attachment has another reader")
	sym.Assert(c.n == 0, "an attachment is closed too early")
	a.Close()
	sym.Reach("closed")
	sym.Assert(c.n == 1, "closing an attachment does not close its reader exactly once")
	b := types.NewAttachment(plain{}, size)
	b.Close()
	sym.Assert(b.Content() == io.Reader(plain{}), "an attachment has another reader")
	var z types.Attachment
	z.Close()
	sym.Assert(z.Content() == nil && z.Size() == 0, "an empty attachment is not empty")
	types.NewAttachment(nil, size).Close()
}

type fakeCoding struct {
	token string
	id    byte
	buff  []byte
	how   int // 0: works, 1: fails, 2: yields nothing, 3: fails after a part
}

// result is what the coding makes of an input.
func (f *fakeCoding) result(dir byte, in string, err error) (string, error) {
	switch f.how {
	case 1:
		return "", err
	case 2:
		return "", nil
	case 3:
		return string([]byte{f.id, dir}), err
	}
	return string([]byte{f.id, dir}) + in, nil
}

func (f *fakeCoding) Token() string { return f.token }
func (f *fakeCoding) Encode(in []byte) ([]byte, error) {
	out, err := f.result('E', string(in), io.ErrShortWrite)
	return []byte(out), err
}
func (f *fakeCoding) Decode(in []byte) ([]byte, error) {
	out, err := f.result('D', string(in), io.ErrShortBuffer)
	return []byte(out), err
}

var tokens = []string{"gzip", "compress", "deflate", "br", "x-gzip", "x-compress", "identity", ""}

func token(label string) string {
	i := sym.Choice(label, len(tokens)+1)
	if i < len(tokens) {
		return tokens[i]
	}
	return sym.String(label+"s", sym.Param("n", 2))
}

// Codings: k codings with any tokens, any of which may fail, then requests for any tokens.
func Codings() {
	k := sym.Param("k", 2)
	size := sym.Param("size", 3)
	m := coding.NewManager(int64(size))
	table := map[string]int{}
	var cs []*fakeCoding
	hows := sym.Param("hows", 4)
	pad := sym.Param("pad", 0)
	k += pad
	for i := 0; i < k; i++ {
		f := &fakeCoding{id: byte(i + 1)}
		if i < pad {
			// some more codings, some of which are registered again
			f.token = tokens[i*3%6]
			if i%3 > 0 {
				f.token = long(1+i*7%30, "tok")
			}
		} else {
			f.token, f.how = token("tok"), sym.Choice("how", hows)
		}
		cs = append(cs, f)
		m.AddCoding(func(buff []byte) coding.Coding {
			f.buff = buff
			return f
		})
		table[f.token] = i
		if f.token == "gzip" {
			table["x-gzip"] = i
		}
		if f.token == "compress" {
			table["x-compress"] = i
		}
		sym.Assert(len(f.buff) == size, "a coding does not get a buffer of the configured size")
	}
	for i := 1; i < k && size > 0; i++ {
		for j := 0; j < i; j++ {
			sym.Assert(&cs[j].buff[0] != &cs[i].buff[0], "two codings share a buffer")
		}
	}
	for r := 0; r < sym.Param("asks", 1); r++ {
		in := sym.Bytes("in", sym.Choice("len", 3))
		if len(in) > 0 {
			in = append(in, long(sym.Param("big", 0), "data")...)
		}
		askCoding(m, cs, table, in)
	}
}

func askCoding(m coding.Manager, cs []*fakeCoding, table map[string]int, in []byte) {
	orig := string(in)
	ask := token("ask")
	var out []byte
	var err error
	dec := sym.Bool("decode")
	if dec {
		out, err = m.Decode(ask, in)
	} else {
		out, err = m.Encode(ask, in)
	}
	sym.ObserveBytes("out", out)
	sym.ObserveBool("err", err != nil)
	if ask == "identity" || len(orig) == 0 {
		sym.Reach("identity")
		sym.Assert(err == nil && string(out) == orig, "identity or empty input is altered")
		return
	}
	i, known := table[ask]
	if !known {
		sym.Reach("unknown")
		sym.Assert(err == coding.ErrUnknownToken && len(out) == 0, "an unknown coding token is not refused")
		return
	}
	sym.Reach("known")
	want, wantErr := cs[i].result('E', orig, io.ErrShortWrite)
	if dec {
		want, wantErr = cs[i].result('D', orig, io.ErrShortBuffer)
	}
	sym.Assert(err == wantErr, "the error of a coding is lost, or one is made up")
	sym.Assert(string(out) == want, "the data is coded by another coding, in the wrong direction, or altered")
}
