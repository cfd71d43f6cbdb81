package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"net"
	"strings"
	"sync"
	"time"

	"gopkg.in/irc.v4"
)

func selfSigned(name string) tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		fatal("failed to generate key: %v", err)
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(1),
		Subject:      pkix.Name{CommonName: name},
		NotBefore:    time.Now().Add(-time.Hour),
		NotAfter:     time.Now().Add(24 * time.Hour),
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, key.Public(), key)
	if err != nil {
		fatal("failed to create certificate: %v", err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

// creds replays Creds.tla: credentials for a network.
type creds struct {
	w     *World
	n     *FakeNet
	tls   bool
	cert  tls.Certificate
	probe *Peer

	mu       sync.Mutex
	hold     bool
	sasl     string
	grant    bool
	reg      bool
	ls       *UpConn // waits for an answer to CAP LS
	impostor *tls.Config
	impGot   []string // what the impostor was sent
	impDone  bool
	prints   []string // SHA-512 fingerprints of the certificates generated
	mech     string
	resp     string
	got      []interface{}
	errs     []string
	kept     []*irc.Message
}

// tlsListener hands out connections once their handshake is done.
type tlsListener struct {
	net.Listener
	m *creds
}

func (l *tlsListener) Accept() (net.Conn, error) {
	for {
		c, err := l.Listener.Accept()
		if err != nil {
			return nil, err
		}
		m := l.m
		m.mu.Lock()
		imp := m.impostor
		m.impostor = nil
		m.mu.Unlock()
		if imp == nil {
			return tls.Server(c, &tls.Config{Certificates: []tls.Certificate{m.cert}, ClientAuth: tls.RequestClientCert}), nil
		}
		go func() {
			tc := tls.Server(c, imp)
			c.SetReadDeadline(time.Now().Add(syncTimeout))
			buf := make([]byte, 4096)
			for {
				k, err := tc.Read(buf)
				if k > 0 {
					m.mu.Lock()
					m.impGot = append(m.impGot, string(buf[:k]))
					m.mu.Unlock()
				}
				if err != nil {
					break
				}
			}
			reset(c)
			m.mu.Lock()
			m.impDone = true
			m.mu.Unlock()
		}()
	}
}

func init() {
	modules["creds"] = func(init Step) (Module, error) {
		m := &creds{w: NewWorld(), hold: true, tls: init.Bool("tls")}
		w := m.w
		w.Cfg.MsgStoreDriver = "db"
		alice := w.AddUser("alice", false)
		var n *FakeNet
		if m.tls {
			m.cert = selfSigned("up.example")
			n = newFakeNetOn("n1", func(ln net.Listener) net.Listener { return &tlsListener{ln, m} })
			n.Addr = strings.Replace(n.Addr, "irc+insecure:", "ircs:", 1)
		} else {
			n = NewFakeNet("n1")
		}
		m.n = n
		n.Caps = []string{}
		n.Handler = m.handle
		w.Nets["n1"] = n
		rec := w.AddNet(alice, n, "n1")
		if m.tls {
			if len(n.Addr)%2 == 0 {
				sum := sha512.Sum512(m.cert.Certificate[0])
				rec.CertFP = "sha-512:" + hex.EncodeToString(sum[:])
			} else {
				sum := sha256.Sum256(m.cert.Certificate[0])
				rec.CertFP = "sha-256:" + hex.EncodeToString(sum[:])
			}
			if err := w.DB.StoreNetwork(ctxBG, alice.ID, rec); err != nil {
				fatal("failed to store network: %v", err)
			}
		}
		w.Start()
		return m, m.begin()
	}
}

// begin waits for a connection held back and for the service.
func (m *creds) begin() error {
	if err := m.waitLS(); err != nil {
		return err
	}
	p, err := m.w.Connect(Login{Key: "probe", User: "alice"})
	m.probe = p
	return err
}

func (m *creds) ServerLog() string { return m.w.logBuf.String() }
func (m *creds) Close()            { m.w.Destroy() }

func (m *creds) handle(uc *UpConn, msg *irc.Message) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := uc.net
	add := func(l ...interface{}) { m.got = append(m.got, l) }
	switch msg.Command {
	case "CAP":
		switch strings.ToUpper(param(msg, 0)) {
		case "LS":
			uc.capLS = true
			if m.hold {
				m.ls = uc
			} else {
				m.errs = append(m.errs, "unexpected connection")
			}
			return true
		case "REQ":
			if !m.grant {
				uc.Sendf(":%s CAP * NAK :%s", n.Host, param(msg, 1))
			} else {
				uc.Sendf(":%s CAP * ACK :%s", n.Host, param(msg, 1))
			}
			return true
		case "END":
			add("end")
		}
	case "AUTHENTICATE":
		p := param(msg, 0)
		if m.mech == "" {
			m.mech, m.resp = p, ""
			uc.Sendf("AUTHENTICATE +")
			return true
		}
		if len(p) > 400 {
			m.errs = append(m.errs, "response too long")
		}
		if p != "+" {
			m.resp += p
		}
		if len(p) == 400 {
			return true
		}
		b, err := base64.StdEncoding.DecodeString(m.resp)
		if err != nil {
			m.errs = append(m.errs, "bad response")
		}
		switch m.mech {
		case "PLAIN":
			f := strings.Split(string(b), "\x00")
			if len(f) != 3 || f[0] != "" {
				m.errs = append(m.errs, "bad PLAIN response")
			} else {
				add("PLAIN", f[1], f[2])
			}
		case "EXTERNAL":
			k := 0
			if tc, ok := uc.conn.(*tls.Conn); ok {
				if l := tc.ConnectionState().PeerCertificates; len(l) > 0 {
					sum := sha512.Sum512(l[0].Raw)
					k = m.certIndex(hex.EncodeToString(sum[:]))
				}
			}
			if len(b) > 0 {
				m.errs = append(m.errs, "bad EXTERNAL response")
			}
			add("EXTERNAL", k)
		default:
			add(m.mech, string(b))
		}
		m.mech = ""
		return true
	case "REGISTER", "VERIFY":
		add(msg.Command, param(msg, 0), param(msg, len(msg.Params)-1))
		return true
	case "PRIVMSG", "NOTICE":
		if strings.EqualFold(param(msg, 0), "NickServ") {
			add(msg.Command)
			m.got = append(m.got, "text "+param(msg, 1))
			uc.Sendf(":NickServ!n@services NOTICE %s :you said %s", uc.Nick, param(msg, 1))
			return true
		}
	}
	return false
}

// certIndex is the number of a certificate; 999 when it is none of ours.
func (m *creds) certIndex(print string) int {
	for i, p := range m.prints {
		if p == print {
			return i + 1
		}
	}
	return 999
}

func (m *creds) waitFor(f func() bool) error {
	for i := 0; i < 12000; i++ {
		m.mu.Lock()
		ok := f()
		m.mu.Unlock()
		if ok {
			return nil
		}
		time.Sleep(time.Millisecond)
	}
	return errNoAnswer
}

func (m *creds) waitLS() error {
	if err := m.waitFor(func() bool { return m.ls != nil && !m.ls.Closed() }); err != nil {
		return fmt.Errorf("reconnection: %w", err)
	}
	return nil
}

func (m *creds) lose() {
	m.mu.Lock()
	m.hold, m.ls, m.mech = true, nil, ""
	m.mu.Unlock()
}

// pass stands for the password of a step; user is needed for its length.
func pass(user, p string) string {
	if strings.HasPrefix(p, "L") {
		var k int
		fmt.Sscanf(p, "L%d", &k)
		return p + strings.Repeat("x", k-len(user)-2-len(p))
	}
	return p
}

func (m *creds) status() (interface{}, error) {
	m.probe.Take()
	m.probe.Send("PRIVMSG BouncerServ :sasl status -network n1")
	if err := m.probe.Sync(); err != nil {
		return nil, err
	}
	mech, user, net, acct := "?", "", "?", ""
	for _, msg := range m.probe.Take() {
		if msg.Prefix.Name != "BouncerServ" {
			continue
		}
		t := param(msg, 1)
		quoted := func() string {
			if i, j := strings.Index(t, "\""), strings.LastIndex(t, "\""); i >= 0 && j > i {
				return t[i+1 : j]
			}
			return t
		}
		switch {
		case strings.HasPrefix(t, "SASL PLAIN enabled"):
			mech, user = "PLAIN", quoted()
		case strings.HasPrefix(t, "SASL EXTERNAL"):
			mech = "EXTERNAL"
		case strings.HasPrefix(t, "SASL is disabled"):
			mech = ""
		case strings.HasPrefix(t, "Authenticated"):
			net, acct = "up", quoted()
		case strings.HasPrefix(t, "Unauthenticated"):
			net = "up"
		case strings.HasPrefix(t, "Disconnected from upstream"):
			net = "down"
		}
	}
	return []interface{}{mech, user, []interface{}{net, acct}}, nil
}

func (m *creds) take(st Step) (interface{}, error) {
	cl := map[string]interface{}{}
	for name, p := range m.w.Clients {
		if name == "probe" {
			continue
		}
		evs := []interface{}{}
		add := func(l ...interface{}) { evs = append(evs, l) }
		svc := []string{}
		msgs := p.Take()
		if st.Str("c") == name {
			msgs = append(m.kept, msgs...)
			m.kept = nil
		}
		for _, msg := range msgs {
			switch msg.Command {
			case "902", "903", "904", "905", "906", "907", "908":
				add(msg.Command)
			case "AUTHENTICATE":
				add("AUTHENTICATE")
			case "FAIL":
				add("FAIL", param(msg, 0), param(msg, 1), param(msg, 2))
			case "REGISTER", "VERIFY":
				add(msg.Command, param(msg, 0), param(msg, 1))
			case "421", "461", "ERROR":
				add(msg.String())
			case "BATCH":
				if strings.HasPrefix(param(msg, 0), "+") && !strings.EqualFold(param(msg, 2), "NickServ") {
					add(msg.String())
				}
			case "PRIVMSG", "NOTICE":
				if _, ok := msg.Tags["batch"]; ok {
					add("recorded", param(msg, 1))
				}
				if msg.Prefix.Name == "BouncerServ" {
					svc = append(svc, param(msg, 1))
				}
			}
		}
		if st.Str("op") == "service" && st.Str("c") == name {
			add(m.reply(svc)...)
		}
		cl[name] = evs
	}
	status, err := m.status()
	if err != nil {
		return nil, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	net := []interface{}{}
	for _, g := range m.got {
		if s, ok := g.(string); ok {
			if exp := "text " + m.text(st); s != exp {
				net = append(net, s+" instead of "+exp)
			}
			continue
		}
		net = append(net, g)
	}
	for _, e := range m.errs {
		net = append(net, e)
	}
	for _, e := range m.impGot {
		net = append(net, "the impostor was sent "+e)
	}
	m.errs, m.got, m.impGot = nil, nil, nil
	// Passwords as they are called in the specification.
	for _, g := range net {
		if l, ok := g.([]interface{}); ok && len(l) == 3 && l[0] == "PLAIN" {
			u, p := l[1].(string), l[2].(string)
			if len(p) > 4 && p[0] == 'L' && pass(u, p[:4]) == p {
				l[2] = p[:4]
			}
		}
	}
	return map[string]interface{}{"cl": cl, "net": net, "status": status}, nil
}

// reply is what the service answered.
func (m *creds) reply(l []string) []interface{} {
	all := strings.Join(l, "\n")
	print := func() []interface{} {
		var sha1, s256, s512 string
		for _, t := range l {
			if f := strings.Fields(t); len(f) == 3 && f[1] == "fingerprint:" {
				switch f[0] {
				case "SHA-1":
					sha1 = f[2]
				case "SHA-256":
					s256 = f[2]
				case "SHA-512":
					s512 = f[2]
				}
			}
		}
		if len(sha1) != 40 || len(s256) != 64 || len(s512) != 128 {
			return []interface{}{"svc", all}
		}
		m.mu.Lock()
		defer m.mu.Unlock()
		if strings.Contains(all, "certificate generated") {
			m.prints = append(m.prints, s512)
		}
		return []interface{}{"svc", "cert", m.certIndex(s512)}
	}
	switch {
	case strings.Contains(all, "fingerprint:"):
		return print()
	case all == "credentials saved" || all == "credentials reset":
		return []interface{}{"svc", "ok"}
	case strings.HasPrefix(all, "SASL "):
		return []interface{}{"svc", "status"}
	case strings.HasPrefix(all, "error: "):
		return []interface{}{"svc", "refused"}
	}
	return []interface{}{"svc", all}
}

// text is what is said to NickServ.
func (m *creds) text(st Step) string {
	u, p := st.Str("u"), st.Str("p")
	t := map[string]string{
		"identify1": "IDENTIFY " + p, "identify2": "IDENTIFY " + u + " " + p, "register": "REGISTER " + p + " mail@example.org",
		"setpassword": "SET PASSWORD " + p, "setemail": "SET EMAIL " + p, "setpasswordempty": "SET PASSWORD", "help": "HELP " + p,
		"ghost": "GHOST alice " + p, "identifyempty": "IDENTIFY",
	}[st.Str("f")]
	if st.Bool("case") {
		if i := strings.Index(t, " "); i > 0 {
			t = strings.ToLower(t[:i]) + " " + t[i:]
		}
	}
	return t
}

func (m *creds) Do(st Step) (interface{}, error) {
	w, n := m.w, m.n
	c := w.Clients[st.Str("c")]
	send := func(format string, args ...interface{}) { n.Cur().Sendf(format, args...) }
	op := st.Str("op")
	switch op {
	case "up":
		m.mu.Lock()
		m.hold = false
		m.sasl, m.grant, m.reg = st.Str("sasl"), st.Bool("ok"), st.Bool("reg")
		var l []string
		switch m.sasl {
		case "~":
		case "":
			l = append(l, "sasl")
		default:
			l = append(l, "sasl="+m.sasl)
		}
		if m.reg {
			l = append(l, "draft/account-registration=custom-account-name")
		}
		ls := m.ls
		m.mu.Unlock()
		ls.Sendf(":%s CAP * LS :%s", n.Host, strings.Join(l, " "))
		if err := m.waitNet(st); err != nil {
			return nil, err
		}
		if !st.Bool("auth") {
			if _, err := n.WaitUp(); err != nil {
				return nil, err
			}
		}
	case "down":
		m.lose()
		n.Cur().conn.Close()
		if err := m.waitLS(); err != nil {
			return nil, err
		}
	case "impostor":
		other := selfSigned("up.example")
		if st.Str("kind") == "chain" {
			other.Certificate = append(other.Certificate, m.cert.Certificate...)
		}
		m.lose()
		m.mu.Lock()
		m.impostor, m.impDone = &tls.Config{Certificates: []tls.Certificate{other}, ClientAuth: tls.RequestClientCert}, false
		m.mu.Unlock()
		n.Cur().conn.Close()
		if err := m.waitFor(func() bool { return m.impDone }); err != nil {
			return nil, fmt.Errorf("impostor: %w", err)
		}
		m.probe.Send("PRIVMSG BouncerServ :network update n1 -realname Alice")
		if err := m.waitLS(); err != nil {
			return nil, err
		}
	case "update":
		m.lose()
		m.probe.Send("PRIVMSG BouncerServ :network update n1 -realname Alice")
		if err := m.waitLS(); err != nil {
			return nil, err
		}
	case "outcome":
		nick := n.Cur().Nick
		if r := st.Str("r"); r == "ok" {
			send(":%s 900 %s %s!u@me.example %s :You are now logged in", n.Host, nick, nick, st.Str("a"))
			send(":%s 903 %s :SASL authentication successful", n.Host, nick)
		} else {
			send(":%s %s %s :SASL authentication failed", n.Host, r, nick)
		}
		if st.Bool("reg") {
			if _, err := n.WaitUp(); err != nil {
				return nil, err
			}
		}
	case "capdel":
		send(":%s CAP alice DEL :sasl", n.Host)
	case "capnew":
		s := "sasl"
		if v := st.Str("sasl"); v != "" {
			s += "=" + v
		}
		send(":%s CAP alice NEW :%s", n.Host, s)
		if st.Bool("auth") {
			if err := m.waitNet(st); err != nil {
				return nil, err
			}
		}
	case "renamed":
		uc := n.Cur()
		old := uc.prefix()
		uc.Nick = st.Str("nick")
		send(":%s NICK :%s", old, uc.Nick)
	case "connect":
		l := Login{Key: st.Str("c"), User: "alice", Caps: []string{"batch", "draft/chathistory", "message-tags"}}
		if st.Str("c") != "c3" {
			l.Net = "n1"
		}
		if _, err := w.Connect(l); err != nil {
			return nil, err
		}
	case "disconnect":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "begin":
		c.Send("CAP REQ sasl", "AUTHENTICATE "+st.Str("mech"))
	case "abort":
		c.Send("CAP REQ sasl", "AUTHENTICATE *")
	case "anonymous":
		if st.Bool("lost") {
			m.lose()
		}
		c.Send("CAP REQ sasl", "AUTHENTICATE ANONYMOUS")
		if err := c.Sync(); err != nil {
			return nil, err
		}
		// Refused at once, or asked for a trace.
		asked := false
		for _, msg := range c.Take() {
			if msg.Command == "AUTHENTICATE" {
				asked = true
			} else {
				m.kept = append(m.kept, msg)
			}
		}
		if asked {
			c.Send("AUTHENTICATE eA==")
		}
		if st.Bool("lost") {
			if err := m.waitLS(); err != nil {
				return nil, err
			}
		}
	case "send":
		u := st.Str("u")
		id := ""
		switch st.Str("kind") {
		case "same":
			id = u
		case "other":
			id = "somebody"
		}
		p := pass(u, st.Str("p"))
		resp := base64.StdEncoding.EncodeToString([]byte(id + "\x00" + u + "\x00" + p))
		if st.Str("kind") == "junk" {
			resp = "!!!"
		}
		c.Send("CAP REQ sasl") // lost with the network
		refused := false
		for len(resp) >= 400 && !refused {
			c.Send("AUTHENTICATE " + resp[:400])
			resp = resp[400:]
			if err := c.Sync(); err != nil {
				return nil, err
			}
			for _, msg := range c.Take() {
				refused = refused || msg.Command == "904"
				m.kept = append(m.kept, msg)
			}
		}
		if resp == "" {
			resp = "+"
		}
		if !refused {
			c.Send("AUTHENTICATE " + resp)
		}
		if st.Bool("go") {
			if err := m.waitNet(st); err != nil {
				return nil, err
			}
		}
	case "nickserv":
		to := "NickServ"
		if st.Bool("case") {
			to = "nickserv"
		}
		c.Sendf("%s %s :%s", st.Str("kind"), to, m.text(st))
		if err := w.Sync(); err != nil {
			return nil, err
		}
		c.Send("CHATHISTORY LATEST NickServ * 20")
	case "register":
		if st.Str("k") == "REGISTER" {
			c.Sendf("REGISTER %s mail@example.org :%s", st.Str("a"), st.Str("p"))
		} else {
			c.Sendf("VERIFY %s :%s", st.Str("a"), st.Str("p"))
		}
	case "registered":
		k, r := st.Str("k"), st.Str("r")
		if r == "FAIL" {
			send(":%s FAIL %s SOME_CODE %s :No", n.Host, k, st.Str("a"))
		} else {
			send(":%s %s %s %s :Done", n.Host, k, r, st.Str("a"))
		}
	case "service":
		flag := ""
		if f := st.Str("flag"); f != "" {
			flag = " -network " + f
		}
		cmd := ""
		switch k := st.Str("k"); k {
		case "set-plain":
			p := pass(st.Str("u"), st.Str("p"))
			cmd = "sasl set-plain" + flag + " " + st.Str("u") + " '" + strings.ReplaceAll(p, "\\", "\\\\") + "'"
		case "reset", "status":
			cmd = "sasl " + k + flag
		case "generate":
			cmd = "certfp generate -key-type " + []string{"ed25519", "ecdsa"}[len(st.Str("p"))%2] + flag
		case "fingerprint":
			cmd = "certfp fingerprint" + flag
		}
		c.Send("PRIVMSG BouncerServ :" + cmd)
	case "restart", "kill":
		m.lose()
		var err error
		if op == "restart" {
			err = w.Restart()
		} else {
			err = w.Crash()
		}
		if err != nil {
			return nil, err
		}
		if err := m.begin(); err != nil {
			return nil, err
		}
	default:
		return nil, fmt.Errorf("unknown step %v", st)
	}
	if err := w.Sync(); err != nil {
		return nil, err
	}
	// What is sent before the welcome is limited in rate.
	if uc := n.Cur(); uc != nil && op == "up" {
		if err := uc.Sync(); err != nil {
			return nil, err
		}
		if err := w.Sync(); err != nil {
			return nil, err
		}
	}
	return m.take(st)
}

// waitNet waits until the network has been sent something expected.
func (m *creds) waitNet(st Step) error {
	if err := m.waitFor(func() bool { return len(m.got) > 0 }); err != nil {
		return nil // what is missing is reported
	}
	return nil
}
