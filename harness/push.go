package main

import (
	"bytes"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"database/sql"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"gopkg.in/irc.v4"
)

// push replays Push.tla: Web Push.  Endpoints with a public address are needed:
// the process runs in a network namespace of its own where the loopback
// interface has one (and private ones, which must be refused).
type push struct {
	w     *World
	id    int
	nets  map[string]*FakeNet
	netID map[string]int64
	user  map[string]int64
	vapid string
	odd   []string
	gone  []int64 // deleted networks
	line  string  // shown by the network in this step
	n     int
}

const pushAddr = "203.0.113.1"

var pushOther = []string{"10.9.8.7", "192.168.7.7", "169.254.7.7", "224.0.0.1"}

type pushReq struct {
	id   int
	e    string
	auth string
	head http.Header
	body []byte
	meth string
}

var pushSrv struct {
	once sync.Once
	mu   sync.Mutex
	cond *sync.Cond
	log  []pushReq
	mode map[string]string
	id   int
	keys [3]struct {
		priv *ecdh.PrivateKey
		auth []byte
	}
}

// pushNamespace runs this program again where the addresses above are ours.
func pushNamespace() {
	if os.Getenv("VERIF_NETNS") != "" {
		return
	}
	script := "ip link set lo up && ip addr add " + pushAddr + "/32 dev lo"
	for _, a := range pushOther[:3] {
		script += " && ip addr add " + a + "/32 dev lo"
	}
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	os.Setenv("VERIF_NETNS", "1")
	args := append([]string{"unshare", "-Urn", "sh", "-c", script + ` && exec "$@"`, "sh", exe}, os.Args[1:]...)
	for _, p := range []string{"/usr/bin/unshare", "/bin/unshare"} {
		if _, err := os.Stat(p); err == nil {
			fatal("failed to run unshare: %v", syscall.Exec(p, args, os.Environ()))
		}
	}
	fatal("unshare not found")
}

func pushStart() {
	s := &pushSrv
	s.cond = sync.NewCond(&s.mu)
	s.mode = make(map[string]string)
	for i := range s.keys {
		s.keys[i].priv, _ = ecdh.P256().GenerateKey(rand.Reader)
		s.keys[i].auth = make([]byte, 16)
		rand.Read(s.keys[i].auth)
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		fatal("%v", err)
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		DNSNames: []string{"localhost"},
	}
	for _, a := range append([]string{pushAddr, "127.0.0.1", "::1", "0.0.0.0"}, pushOther...) {
		tmpl.IPAddresses = append(tmpl.IPAddresses, net.ParseIP(a))
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, key.Public(), key)
	if err != nil {
		fatal("%v", err)
	}
	file := filepath.Join(scratchRoot, "ca.pem")
	if err := os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600); err != nil {
		fatal("%v", err)
	}
	os.Setenv("SSL_CERT_FILE", file)
	os.Setenv("SSL_CERT_DIR", filepath.Join(scratchRoot, "none"))
	ln, err := tls.Listen("tcp", ":443", &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	if err != nil {
		fatal("failed to listen for Web Push: %v", err)
	}
	srv := &http.Server{Handler: http.HandlerFunc(pushServe), ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(ln)
}

func pushServe(rw http.ResponseWriter, req *http.Request) {
	s := &pushSrv
	var r pushReq
	fmt.Sscanf(strings.Replace(req.URL.Path, "/", " ", -1), "%d %s", &r.id, &r.e)
	r.body, _ = io.ReadAll(req.Body)
	r.head, r.auth, r.meth = req.Header, req.Header.Get("Authorization"), req.Method
	s.mu.Lock()
	defer s.mu.Unlock()
	if r.id != s.id {
		return
	}
	s.log = append(s.log, r)
	s.cond.Broadcast()
	switch s.mode[r.e] {
	case "gone":
		rw.WriteHeader(404)
	case "fail":
		rw.WriteHeader(500)
	default:
		rw.WriteHeader(201)
	}
}

func init() {
	modules["push"] = func(init Step) (Module, error) {
		pushSrv.once.Do(pushStart)
		s := &pushSrv
		s.mu.Lock()
		s.id++
		s.log, s.mode = nil, make(map[string]string)
		m := &push{w: NewWorld(), id: s.id, nets: make(map[string]*FakeNet), netID: make(map[string]int64), user: make(map[string]int64)}
		s.mu.Unlock()
		a, b := m.w.AddUser("alice", false), m.w.AddUser("dave", false)
		for _, n := range []string{"n1", "n2", "n3"} {
			u := a
			if n == "n3" {
				u = b
			}
			f := NewFakeNet(strings.ToUpper(n))
			f.Caps = []string{"message-tags", "server-time"}
			f.Names = func(string) []string { return []string{"bob", "eve"} }
			m.nets[n] = f
			rec := m.w.AddNet(u, f, n)
			m.netID[n], m.user[n] = rec.ID, u.ID
		}
		m.user["0"] = a.ID
		m.w.Start()
		if err := m.settle(); err != nil {
			return m, err
		}
		if err := m.clients(); err != nil {
			return m, err
		}
		m.w.Clients["n1"].Send("JOIN #c")
		return m, m.w.Sync()
	}
}

func (m *push) ServerLog() string { return m.w.logBuf.String() }
func (m *push) Close()            { m.w.Destroy() }

func (m *push) settle() error {
	for _, n := range m.nets {
		if _, err := n.WaitUp(); err != nil {
			return err
		}
	}
	return m.w.Sync()
}

// clients connects one client for each slot, and one without the capability.
func (m *push) clients() error {
	for _, k := range []string{"0", "n1", "n2", "n3", "x"} {
		if err := m.client(k); err != nil {
			return err
		}
	}
	return nil
}

func (m *push) client(k string) error {
	l := Login{Key: k, User: "alice", Net: k, Client: "c" + k, Caps: []string{"soju.im/webpush", "draft/read-marker"}}
	switch k {
	case "0":
		l.Net = ""
	case "n3":
		l.User = "dave"
	case "x":
		l.Net, l.Caps = "n1", nil
	}
	c, err := m.w.Connect(l)
	if err != nil {
		return err
	}
	v := ""
	for _, msg := range c.Take() {
		if msg.Command == "005" {
			for _, t := range msg.Params {
				if strings.HasPrefix(t, "VAPID=") {
					v = t[6:]
				}
			}
		}
	}
	if k == "x" {
		if v != "" {
			m.odd = append(m.odd, "VAPID shown without the capability")
		}
		return nil
	}
	if m.vapid == "" {
		m.vapid = v
	}
	if v == "" || v != m.vapid {
		m.odd = append(m.odd, "VAPID is "+v+", not "+m.vapid)
	}
	return nil
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func hkdf(salt, ikm, info []byte, n int) []byte {
	h := hmac.New(sha256.New, salt)
	h.Write(ikm)
	prk := h.Sum(nil)
	h = hmac.New(sha256.New, prk)
	h.Write(info)
	h.Write([]byte{1})
	return h.Sum(nil)[:n]
}

// pushDecrypt decrypts a body (RFC 8188 and 8291) with key k.
func pushDecrypt(k int, body []byte) (string, bool) {
	if len(body) < 86 || body[20] != 65 {
		return "", false
	}
	salt, rs, pub := body[:16], binary.BigEndian.Uint32(body[16:20]), body[21:86]
	ct := body[86:]
	if uint32(len(ct)) > rs {
		return "", false
	}
	as, err := ecdh.P256().NewPublicKey(pub)
	if err != nil {
		return "", false
	}
	key := pushSrv.keys[k]
	secret, err := key.priv.ECDH(as)
	if err != nil {
		return "", false
	}
	info := append([]byte("WebPush: info\x00"), key.priv.PublicKey().Bytes()...)
	info = append(info, pub...)
	ikm := hkdf(key.auth, secret, info, 32)
	blk, _ := aes.NewCipher(hkdf(salt, ikm, []byte("Content-Encoding: aes128gcm\x00"), 16))
	gcm, _ := cipher.NewGCM(blk)
	pt, err := gcm.Open(nil, hkdf(salt, ikm, []byte("Content-Encoding: nonce\x00"), 12), ct, nil)
	if err != nil {
		return "", false
	}
	pt = bytes.TrimRight(pt, "\x00")
	if len(pt) == 0 || pt[len(pt)-1] != 2 {
		return "", false
	}
	return string(pt[:len(pt)-1]), true
}

// signed reports what is wrong with the signature of a request.
func (m *push) signed(r pushReq) string {
	var t, k string
	if !strings.HasPrefix(r.auth, "vapid ") {
		return "no VAPID"
	}
	for _, f := range strings.Split(r.auth[6:], ",") {
		f = strings.TrimSpace(f)
		if strings.HasPrefix(f, "t=") {
			t = f[2:]
		} else if strings.HasPrefix(f, "k=") {
			k = f[2:]
		}
	}
	if k != m.vapid {
		return "signed with another key than announced"
	}
	parts := strings.Split(t, ".")
	if len(parts) != 3 {
		return "bad token"
	}
	sig, _ := base64.RawURLEncoding.DecodeString(parts[2])
	raw, _ := base64.RawURLEncoding.DecodeString(k)
	if len(sig) != 64 || len(raw) != 65 {
		return "bad signature"
	}
	pub := &ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(raw[1:33]), Y: new(big.Int).SetBytes(raw[33:])}
	h := sha256.Sum256([]byte(parts[0] + "." + parts[1]))
	if !ecdsa.Verify(pub, h[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])) {
		return "wrong signature"
	}
	b, _ := base64.RawURLEncoding.DecodeString(parts[1])
	var claims struct {
		Aud string `json:"aud"`
		Exp int64  `json:"exp"`
	}
	json.Unmarshal(b, &claims)
	if claims.Aud != "https://"+pushAddr || claims.Exp < time.Now().Unix() {
		return "wrong claims " + string(b)
	}
	return ""
}

func tagsOf(msg *irc.Message) string {
	b, _ := json.Marshal(msg.Tags)
	return string(b)
}

// what names the content of a push.
func (m *push) what(st Step, text string) string {
	msg, err := irc.ParseMessage(text)
	if err != nil {
		return "bad message: " + text
	}
	switch {
	case msg.Command == "NOTE" && param(msg, 0) == "WEBPUSH" && param(msg, 1) == "REGISTERED":
		return "test"
	case msg.Command == "MARKREAD" && st.Str("op") == "read":
		t, ts := m.target(st), strings.TrimPrefix(param(msg, 1), "timestamp=")
		tm, err := time.Parse("2006-01-02T15:04:05.000Z", ts)
		if param(msg, 0) != t || err != nil {
			break
		}
		if st.Int("when") >= 0 && !tm.Equal(pushTime(st.Int("when"))) || st.Int("when") < 0 && time.Since(tm) > time.Minute {
			break
		}
		return "read"
	case m.line != "":
		want := irc.MustParseMessage(m.line)
		got := msg.Copy()
		if tagsOf(want) != tagsOf(got) {
			break
		}
		want.Tags, got.Tags = nil, nil
		if want.String() == got.String() {
			return map[string]string{"PRIVMSG": "msg", "NOTICE": "msg", "INVITE": "invite"}[msg.Command]
		}
	}
	return "unexpected: " + text
}

func pushTime(k int) time.Time {
	return time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(k) * time.Second)
}

func (m *push) target(st Step) string {
	if st.Bool("as") {
		return strings.ToUpper(st.Str("t"))
	}
	return st.Str("t")
}

func (m *push) subs() (map[string]interface{}, error) {
	res := make(map[string]interface{})
	for _, id := range m.gone {
		l, err := m.w.DB.ListWebPushSubscriptions(context.Background(), m.user["0"], id)
		if err != nil {
			return nil, err
		}
		if len(l) > 0 && id != m.netID["n2"] { // numbers are reused
			res["gone"] = len(l)
		}
	}
	for s, u := range m.user {
		l, err := m.w.DB.ListWebPushSubscriptions(context.Background(), u, m.netID[s])
		if err != nil {
			return nil, err
		}
		t := map[string]interface{}{"e1": 0, "e2": 0, "e3": 0}
		for _, sub := range l {
			e := sub.Endpoint[strings.LastIndexByte(sub.Endpoint, '/')+1:]
			k := 99
			for i := 1; i <= 2; i++ {
				if sub.Keys.P256DH == b64(pushSrv.keys[i].priv.PublicKey().Bytes()) && sub.Keys.Auth == b64(pushSrv.keys[i].auth) {
					k = i
				}
			}
			if t[e] != 0 {
				k = 98
			}
			t[e] = k
		}
		res[s] = t
	}
	return res, nil
}

func (m *push) url(e string) string { return fmt.Sprintf("https://%s/%d/%s", pushAddr, m.id, e) }

func (m *push) Do(st Step) (interface{}, error) {
	w := m.w
	exp := st.Map("exp")
	m.n++
	m.line = ""
	nick := func(n string) string { return m.nets[n].Cur().Nick }
	reply := []string{}
	ask := func(c string, lines ...string) error {
		p := w.Clients[c]
		p.Take()
		p.Send(lines...)
		return w.Sync()
	}
	var err error
	switch st.Str("op") {
	case "register", "unregister":
		c, e := st.Str("s"), st.Str("e")
		url := m.url(e)
		if st.Str("op") == "unregister" {
			err = ask(c, "WEBPUSH UNREGISTER "+url)
		} else {
			k := pushSrv.keys[st.Int("k")]
			keys := "auth=" + b64(k.auth) + ";p256dh=" + b64(k.priv.PublicKey().Bytes())
			host := map[string]string{"loop": "127.0.0.1", "loop6": "[::1]", "mapped": "[::ffff:127.0.0.1]", "priv": pushOther[0], "priv2": pushOther[1], "link": pushOther[2], "multi": pushOther[3], "zero": "0.0.0.0", "name": "localhost"}
			switch v := st.Str("v"); v {
			case "http":
				url = strings.Replace(url, "https", "http", 1)
			case "rel":
				url = strings.TrimPrefix(url, "https:")
			case "nokeys":
				keys = "foo=bar"
			case "noauth":
				keys = keys[strings.IndexByte(keys, ';')+1:]
			case "nop256":
				keys = keys[:strings.IndexByte(keys, ';')]
			case "junk":
				keys = "auth=" + b64(k.auth) + ";p256dh=AAAA"
			default:
				if h, ok := host[v]; ok {
					url = strings.Replace(url, pushAddr, h, 1)
				}
			}
			err = ask(c, "WEBPUSH REGISTER "+url+" "+keys)
		}
		for _, msg := range w.Clients[c].Take() {
			switch {
			case msg.Command == "WEBPUSH" && param(msg, 1) == url:
				reply = append(reply, param(msg, 0))
			case msg.Command == "WEBPUSH":
				reply = append(reply, msg.String())
			case msg.Command == "FAIL":
				reply = append(reply, "FAIL", param(msg, 1))
			}
		}
	case "nocap":
		err = ask("x", "WEBPUSH "+st.Str("w")+" "+m.url(st.Str("e"))+" auth=x;p256dh=y")
		for _, msg := range w.Clients["x"].Take() {
			if msg.Command == "WEBPUSH" || msg.Command == "FAIL" || msg.Command == "421" {
				reply = append(reply, msg.Command)
			}
		}
	case "msg":
		n := st.Str("n")
		from := st.Str("from")
		switch from {
		case "self":
			from = nick(n) + "!u@h"
		case "server":
			from = "up.example"
		default:
			from += "!u@h"
		}
		to := "#c"
		tags := "time=" + pushTime(st.Int("time")).Format("2006-01-02T15:04:05.000Z")
		if st.Str("to") != "#c" {
			to = nick(n)
			if st.Str("to") != "me" {
				tags += ";+draft/channel-context=#c"
			}
		}
		if st.Bool("tag") {
			tags += ";account=acct;+x=y"
		}
		text := strings.NewReplacer("%n", nick(n), "%e", "é", "%z", "⚡").Replace(st.Str("text"))
		if strings.HasPrefix(text, "ACTION ") {
			text = "\x01" + text + "\x01"
		}
		m.line = fmt.Sprintf("@%s :%s %s %s :%s", tags, from, st.Str("cmd"), to, text)
		m.nets[n].Cur().Send(m.line)
	case "invite":
		n, who := st.Str("n"), st.Str("who")
		if who == "me" {
			who = nick(n)
		}
		m.line = fmt.Sprintf("@time=2020-02-02T02:02:02.000Z :bob!u@h INVITE %s %s", who, st.Str("chan"))
		m.nets[n].Cur().Send(m.line)
	case "kick":
		m.nets["n1"].Cur().Sendf(":bob!u@h KICK #c %s :out", nick("n1"))
	case "say":
		err = ask(st.Str("n"), "PRIVMSG "+st.Str("t")+" :"+nick(st.Str("n"))+" here")
	case "read":
		ts := time.Now().Add(time.Hour)
		if st.Int("when") >= 0 {
			ts = pushTime(st.Int("when"))
		} else {
			time.Sleep(2 * time.Millisecond) // later than any other mark
		}
		err = ask(st.Str("n"), "MARKREAD "+m.target(st)+" timestamp="+ts.UTC().Format("2006-01-02T15:04:05.000Z"))
	case "endpoint":
		pushSrv.mu.Lock()
		pushSrv.mode[st.Str("e")] = st.Str("m")
		pushSrv.mu.Unlock()
	case "detach":
		if st.Bool("on") {
			err = ask("n1", "PART #c detach")
		} else {
			err = ask("n1", "JOIN #c")
		}
	case "relay":
		err = ask("n1", "PRIVMSG BouncerServ :channel update #c -relay-detached "+st.Str("r"))
	case "rejoin":
		if err = ask("n1", "PART #c"); err == nil {
			err = ask("n1", "JOIN #c")
		}
	case "nick":
		uc := m.nets[st.Str("n")].Cur()
		old := uc.Nick
		nw := old + "2"
		if strings.HasSuffix(old, "2") {
			nw = strings.TrimSuffix(old, "2")
		}
		uc.Sendf(":%s!u@h NICK %s", old, nw)
		uc.Nick = nw
	case "clients":
		if st.Bool("on") {
			err = m.clients()
		} else {
			for k := range w.Clients {
				if err := w.Disconnect(k); err != nil {
					return nil, err
				}
			}
		}
	case "down":
		err = w.NetDown(m.nets[st.Str("n")])
	case "up", "upd":
		n := m.nets[st.Str("n")]
		if st.Str("op") == "up" {
			w.NetUp(n)
		} else {
			was := n.NumConns()
			if err = ask("n1", fmt.Sprintf("PRIVMSG BouncerServ :network update %s -realname 'name %d'", st.Str("n"), m.n)); err == nil {
				_, err = n.WaitReady(was)
			}
		}
		if err == nil {
			_, err = n.WaitUp()
		}
	case "recreate":
		n := m.nets["n2"]
		c := w.Clients["n2"]
		if err = ask("0", "PRIVMSG BouncerServ :network delete n2"); err != nil {
			break
		}
		if !c.WaitClosed(syncTimeout) {
			return nil, fmt.Errorf("the client of a deleted network is kept")
		}
		delete(w.Clients, "n2")
		if err = w.WaitDownstreams(); err != nil {
			break
		}
		m.gone = append(m.gone, m.netID["n2"])
		for _, uc := range n.Live() {
			if err = n.WaitGone(uc); err != nil {
				return nil, err
			}
		}
		n.mu.Lock()
		n.Hold = false
		n.mu.Unlock()
		was := n.NumConns()
		if err = ask("0", fmt.Sprintf("PRIVMSG BouncerServ :network create -addr %s -name n2", n.Addr)); err == nil {
			if _, err = n.WaitReady(was); err == nil {
				err = m.client("n2")
			}
		}
		l, e := w.DB.ListNetworks(context.Background(), m.user["n2"])
		if e != nil {
			return nil, e
		}
		for _, rec := range l {
			if rec.Name == "n2" {
				m.netID["n2"] = rec.ID
			}
		}
	case "restart":
		if st.Bool("kill") {
			err = w.Crash()
		} else {
			err = w.Restart()
		}
		if err == nil && st.Bool("age") {
			err = m.age()
		}
		if err == nil {
			err = m.settle()
		}
		if err == nil {
			err = m.clients()
		}
	default:
		return nil, fmt.Errorf("unknown step %q", st.Str("op"))
	}
	if err == nil {
		err = w.Sync()
	}
	if err != nil {
		return nil, err
	}
	// Wait for what is expected; more may come any time.
	want := exp.List("push")
	s := &pushSrv
	deadline := time.Now().Add(3 * time.Second)
	got := func() int {
		s.mu.Lock()
		defer s.mu.Unlock()
		return len(s.log)
	}
	for got() < len(want) && time.Now().Before(deadline) {
		time.Sleep(300 * time.Microsecond)
	}
	time.Sleep(time.Millisecond)
	if m.n%12 == 0 {
		time.Sleep(50 * time.Millisecond)
	}
	var subs map[string]interface{}
	for {
		if subs, err = m.subs(); err != nil {
			return nil, err
		}
		if match(exp["subs"], norm(subs)) || time.Now().After(deadline) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	s.mu.Lock()
	l := s.log
	s.log = nil
	s.mu.Unlock()
	pushes := []map[string]interface{}{}
	for _, r := range l {
		p := map[string]interface{}{"e": r.e, "k": 0, "what": "cannot be decrypted"}
		for k := range s.keys {
			if text, ok := pushDecrypt(k, r.body); ok {
				p["k"], p["what"] = k, m.what(st, text)
			}
		}
		urgency := "high"
		if p["what"] == "test" || p["what"] == "read" {
			urgency = "normal"
		}
		if e := m.signed(r); e != "" {
			p["what"] = e
		} else if r.meth != "POST" || r.head.Get("Content-Encoding") != "aes128gcm" || r.head.Get("Ttl") == "" || r.head.Get("Urgency") != urgency {
			p["what"] = fmt.Sprintf("wrong header: %v", r.head)
		}
		pushes = append(pushes, p)
	}
	res := map[string]interface{}{"push": pushes, "subs": subs, "reply": reply}
	if len(m.odd) > 0 {
		res["odd"] = m.odd
	}
	return res, nil
}

// age makes all subscriptions old, while the server is stopped.
func (m *push) age() error {
	db, err := sql.Open("sqlite3", m.w.DBPath+"?_busy_timeout=5000")
	if err != nil {
		return err
	}
	defer db.Close()
	_, err = db.Exec("UPDATE WebPushSubscription SET updated_at = '2020-01-01T00:00:00.000Z'")
	return err
}
