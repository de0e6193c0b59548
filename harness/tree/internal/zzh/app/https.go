package app

import (
	"crypto/tls"
	"encoding/pem"
	"net"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/zzautocert"
	"github.com/indigo-web/indigo/internal/zzfs"
	"github.com/indigo-web/indigo/internal/zzlog"
	"github.com/indigo-web/indigo/internal/zznet"
	"github.com/indigo-web/indigo/internal/zzrsa"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/internal/zztls"
	"github.com/indigo-web/indigo/router/simple"
)

// bound is what an application bound.
type bound struct {
	plain, secure []string
	cfgs          []*tls.Config
	ls            []*listener
	served        []encryption.Token
	up, all       bool
}

// bind runs an application until each of its listeners served one connection.
func bind(app *indigo.App, expect int) (*bound, error) {
	b := &bound{}
	listen := func(a string) *listener {
		l := &listener{addr: a, conns: []*conn{{data: "GET / HTTP/1.1\r\nConnection: close\r\n\r\n"}}}
		l.conns[0].from = l
		b.ls = append(b.ls, l)
		return l
	}
	zznet.OnListen = func(network, a string) (net.Listener, error) {
		sym.Assert(network == "tcp", "an address is bound on another network")
		b.plain = append(b.plain, a)
		return listen(a), nil
	}
	zztls.OnListen = func(network, a string, cfg *tls.Config) (net.Listener, error) {
		sym.Assert(network == "tcp", "an address is bound on another network")
		b.secure = append(b.secure, a)
		b.cfgs = append(b.cfgs, cfg)
		return listen(a), nil
	}
	go func() {
		sym.Await(&b.up)
		sym.Await(&b.all)
		app.Stop()
	}()
	handler := func(r *http.Request) *http.Response {
		b.served = append(b.served, r.Env.Encryption)
		if len(b.served) == len(b.ls) {
			b.all = true
		}
		return r.Respond()
	}
	err := app.OnStart(func() { b.up = true }).Serve(simple.New(handler, func(r *http.Request) *http.Response {
		return r.Respond().Error(r.Env.Error)
	}))
	b.up, b.all = true, true
	for _, l := range b.ls {
		sym.Assert(l.closed, "a listener stays open")
	}
	return b, err
}

// tokens checks that the encrypted listeners, and no others, are known to be encrypted.
func (b *bound) tokens() {
	plain, secure := 0, 0
	for _, t := range b.served {
		if t == encryption.TLS {
			secure++
		} else if t == encryption.Plain {
			plain++
		}
	}
	sym.Assert(plain == len(b.plain) && secure == len(b.secure), "requests of an encrypted listener are taken for plain ones, or the other way round")
}

func pemOf(kind, text string) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: []byte(text)})
}

func file(name string, data []byte) { zzfs.Files[name] = &zzfs.Node{Data: data} }

func dirs(name string) {
	for i := 1; i <= len(name); i++ {
		if i == len(name) || name[i] == '/' {
			zzfs.Files[name[:i]] = &zzfs.Node{Dir: true}
		}
	}
}

func tuned(a string) *indigo.App {
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = 64
	return indigo.New(a).Tune(cfg)
}

// environment returns the directory in which certificates are kept.
func environment() string {
	zzfs.Env = map[string]string{}
	zzlog.Lines, zzrsa.Keys = 0, 0
	zzfs.Reset()
	switch sym.Choice("env", sym.Param("envs", 4)) {
	case 0:
		zzfs.Env["HOME"] = "/home/me"
		return "/home/me/.cache/golang-autocert"
	case 1:
		zzfs.Env["HOME"] = "/home/me"
		zzfs.Env["XDG_CACHE_HOME"] = "/var/xdg"
		return "/var/xdg/golang-autocert"
	case 2:
		zzfs.Env["XDG_CACHE_HOME"] = "/xdg/"
		return "/xdg/golang-autocert"
	}
	return "/.cache/golang-autocert"
}

// SelfSigned: a local address gets a certificate of its own, whatever is found in the cache and
// whatever failed or crashed before.
func SelfSigned() {
	dir := environment()
	crt, key := dir+"/localhost.crt", dir+"/localhost.key"
	goodCrt, goodKey := pemOf("CERTIFICATE", "C777/777 of someone"), pemOf("PRIVATE KEY", "K777")
	state := sym.Param("state", 0)
	hopeless := false
	if state > 0 && state != 9 {
		dirs(dir)
	}
	switch state {
	case 2:
		file(crt, goodCrt)
		file(key, goodKey)
	case 3:
		file(crt, goodCrt)
	case 4:
		file(key, goodKey)
	case 5:
		file(crt, goodCrt)
		file(key, goodKey[:len(goodKey)/2])
	case 6:
		file(crt, goodCrt)
		file(key, nil)
	case 7:
		file(crt, pemOf("CERTIFICATE", "C778/778 of someone"))
		file(key, goodKey)
	case 8:
		dirs(crt)
		hopeless = true
	case 9:
		file(dir, []byte("not a directory"))
		hopeless = true
	}
	local := []string{"localhost:443", "127.0.0.1:443", ":443", "LocalHost"}[sym.Choice("addr", sym.Param("addrs", 4))]
	want := local
	if local == ":443" {
		want = "0.0.0.0:443"
	}
	if faults := sym.Param("faults", 0); faults != 0 {
		at := sym.Choice("at", 24)
		if faults == 1 {
			zzfs.FailAt = at
		} else {
			zzfs.DieAt = at
		}
		first := attempt(local)
		if first == nil {
			sym.Reach("crashed")
		} else {
			sym.Assert(zzfs.Open_ == 0, "a file stays open")
			hit := zzfs.Steps > at
			zzfs.FailAt, zzfs.DieAt = -1, -1
			b, err := bind(first, 2)
			sym.Assert(err == status.ErrShutdown, "an incomplete certificate is used")
			if len(b.secure) == 0 {
				sym.Reach("disabled")
				sym.Assert(hit && zzlog.Lines > 0 || hopeless, "encryption is disabled without a reason or a warning")
			}
		}
		zzfs.FailAt, zzfs.DieAt, zzfs.Open_, zzlog.Lines = -1, -1, 0, 0
	}
	// from here on, nothing fails
	before := zzrsa.Keys
	app := attempt(local)
	sym.Assert(zzfs.Open_ == 0, "a file stays open")
	b, err := bind(app, 2)
	sym.ObserveInt("secure", len(b.secure))
	sym.Assert(err == status.ErrShutdown, "a broken certificate is used")
	sym.Assert(len(b.plain) == 1 && b.plain[0] == "plain:80", "the listeners that are not encrypted changed")
	b.tokens()
	if hopeless {
		sym.Reach("hopeless")
		sym.Assert(len(b.secure) == 0 && zzlog.Lines > 0, "encryption is not disabled, or silently so")
		return
	}
	sym.Reach("encrypted")
	sym.Assert(len(b.secure) == 1 && b.secure[0] == want, "the local address is not bound with encryption")
	sym.Assert(zzlog.Lines == 0, "a warning without a reason")
	cs := b.cfgs[0].Certificates
	pair, err := zztls.LoadX509KeyPair(crt, key)
	sym.Assert(err == nil && len(cs) == 1 && len(cs[0].Certificate) == 1 && string(cs[0].Certificate[0]) == string(pair.Certificate[0]), "another certificate is used than the one that is kept")
	if state == 2 && sym.Param("faults", 0) == 0 {
		sym.Reach("kept")
		sym.Assert(zzrsa.Keys == before && string(zzfs.Files[crt].Data) == string(goodCrt) && string(zzfs.Files[key].Data) == string(goodKey), "a usable certificate is replaced")
	}
	n := zzrsa.Keys
	attempt(local)
	sym.Assert(zzrsa.Keys == n, "a new certificate is made although there is one")
}

// attempt sets up an application; nil if it crashed.
func attempt(local string) (app *indigo.App) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(zzfs.Crash); !ok {
				panic(r)
			}
			app = nil
		}
	}()
	return tuned("plain:80").AutoHTTPS(local)
}

// AutoCert: any other address gets certificates on demand, for the given domains only.
func AutoCert() {
	dir := environment()
	blocked := false
	switch sym.Choice("exists", 3) {
	case 1:
		dirs(dir)
	case 2:
		file(dir, []byte("not a directory"))
		blocked = true
	}
	zzfs.FailAt = sym.Choice("fail", 4) - 1
	failAt := zzfs.FailAt
	k, n := sym.Param("k", 0), sym.Param("n", 1)
	var domains []string
	for i := 0; i < k; i++ {
		domains = append(domains, sym.String("domain", n))
	}
	a := []string{"example.com:443", "localhost.example.com:443", "1.2.3.256:8443", "host"}[sym.Choice("addr", 4)]
	b, err := bind(tuned("plain:80").AutoHTTPS(a, domains...), 2)
	sym.Assert(err == status.ErrShutdown, "binding fails")
	sym.Assert(len(b.plain) == 1 && len(b.secure) == 1 && b.secure[0] == a, "the address is not bound with encryption")
	b.tokens()
	sym.Assert(len(b.cfgs[0].Certificates) == 0 && zzrsa.Keys == 0, "a public address gets a certificate of its own")
	sym.Assert(b.cfgs[0].GetCertificate != nil, "there are no certificates")
	_, _ = b.cfgs[0].GetCertificate(nil)
	m := zzautocert.Asked
	sym.Assert(m != nil && m.Prompt != nil && m.Prompt("url"), "the terms are not accepted")
	host := sym.String("host", n)
	if k == 0 {
		sym.Reach("any")
		sym.Assert(m.HostPolicy == nil, "hosts are refused although all are allowed")
	} else {
		listed := false
		for _, d := range domains {
			if d == host {
				listed = true
			}
		}
		sym.Reach("listed")
		sym.Assert(m.HostPolicy != nil && (m.HostPolicy(nil, host) == nil) == listed, "other hosts are allowed than the given ones")
	}
	c, ok := m.Cache.(zzautocert.DirCache)
	if ok {
		sym.Reach("cached")
		sym.Assert(string(c) == dir && zzfs.Files[dir] != nil && zzfs.Files[dir].Dir && zzlog.Lines == 0, "certificates are kept somewhere else")
	} else {
		sym.Reach("uncached")
		sym.Assert(m.Cache == nil && (failAt >= 0 || blocked) && zzlog.Lines > 0, "certificates are not kept without a reason or a warning")
	}
}

// Given: the given pair is used, and only if it can be.
func Given() {
	environment()
	zzfs.Files["/etc"] = &zzfs.Node{Dir: true}
	crt, key := pemOf("CERTIFICATE", "C555/555 of me"), pemOf("PRIVATE KEY", "K555")
	good := true
	switch sym.Choice("state", 4) {
	case 0:
		file("/etc/a.crt", crt)
		file("/etc/a.key", key)
	case 1:
		file("/etc/a.crt", crt)
		good = false
	case 2:
		file("/etc/a.crt", crt)
		file("/etc/a.key", pemOf("PRIVATE KEY", "K556"))
		good = false
	case 3:
		file("/etc/a.key", key)
		good = false
	}
	a := []string{"example.com:443", ":443", "localhost:1"}[sym.Choice("addr", 3)]
	want := a
	if a == ":443" {
		want = "0.0.0.0:443"
	}
	b, err := bind(tuned("plain:80").HTTPS(a, "/etc/a.crt", "/etc/a.key"), 2)
	sym.Assert(len(zzfs.Made) == 0 && zzrsa.Keys == 0, "a given certificate is changed, or another one is made")
	if !good {
		sym.Reach("broken")
		sym.Assert(err != nil && err != status.ErrShutdown && len(b.secure) == 0 && len(b.served) == 0, "a broken certificate is used")
		return
	}
	sym.Reach("given")
	sym.Assert(err == status.ErrShutdown && len(b.secure) == 1 && b.secure[0] == want, "the address is not bound with encryption")
	b.tokens()
	cs := b.cfgs[0].Certificates
	sym.Assert(len(cs) == 1 && len(cs[0].Certificate) == 1 && string(cs[0].Certificate[0]) == "C555/555 of me", "another certificate is used than the given one")
}
