package main

import (
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/crypto/bcrypt"
	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
)

func init() { modules["access"] = newAccess }

type access struct {
	w      *World
	drv    string
	srv    *httptest.Server
	netID  map[string]int64
	acct   map[string]string // client -> account it was let in as
	hashes map[string]int    // bcrypt hash -> password number
	nuser  int
	sock   *Peer
}

var accessPw = map[int]string{0: "", 1: "pw-one", 2: "pw two"}

// One bcrypt hash per password is enough to start with.
var accessHash = map[int]string{}

func newAccess(init Step) (Module, error) {
	w := NewWorld()
	m := &access{w: w, drv: init.Str("drv"), netID: make(map[string]int64), acct: make(map[string]string), hashes: make(map[string]int)}
	mux := http.NewServeMux()
	mux.HandleFunc("/auth", func(rw http.ResponseWriter, req *http.Request) {
		u, p, _ := req.BasicAuth()
		switch {
		case p == "boom":
			rw.WriteHeader(500)
		case p != "" && p == "tok-"+u:
			rw.WriteHeader(200)
		case p == "tok-anon":
			rw.WriteHeader(401)
		default:
			rw.WriteHeader(403)
		}
	})
	mux.HandleFunc("/.well-known/oauth-authorization-server", func(rw http.ResponseWriter, req *http.Request) {
		json.NewEncoder(rw).Encode(map[string]interface{}{"issuer": "verif", "introspection_endpoint": m.srv.URL + "/introspect"})
	})
	mux.HandleFunc("/introspect", func(rw http.ResponseWriter, req *http.Request) {
		tok := req.PostFormValue("token")
		switch {
		case tok == "boom":
			rw.WriteHeader(500)
		case tok == "tok-anon":
			json.NewEncoder(rw).Encode(map[string]interface{}{"active": true})
		case strings.HasPrefix(tok, "tok-") && tok != "tok-dead":
			json.NewEncoder(rw).Encode(map[string]interface{}{"active": true, "username": strings.TrimPrefix(tok, "tok-")})
		default:
			json.NewEncoder(rw).Encode(map[string]interface{}{"active": false, "username": strings.TrimPrefix(tok, "tok-")})
		}
	})
	m.srv = httptest.NewServer(mux)
	var err error
	switch m.drv {
	case "internal":
		w.Cfg.Auth = auth.NewInternal()
	case "http":
		w.Cfg.Auth, err = auth.New("http", m.srv.URL+"/auth")
	default:
		w.Cfg.Auth, err = auth.New("oauth2", m.srv.URL)
		if err == nil && m.drv == "oauth2plain" {
			w.Cfg.Auth.Plain = auth.OAuthPlainAuthenticator{OAuthBearer: w.Cfg.Auth.OAuthBearer}
		}
	}
	if err != nil {
		fatal("auth: %v", err)
	}
	w.Cfg.EnableUsersOnAuth = init.Bool("eoa")
	names := []string{}
	for name := range init.Map("users") {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		st := init.Map("users").Map(name)
		u := database.NewUser(name)
		u.Admin = st.Bool("admin")
		u.Enabled = st.Bool("enabled")
		if k := st.Int("pw"); k > 0 {
			if accessHash[k] == "" {
				// Cheaper than the default cost: the server is to upgrade it.
				h, err := bcrypt.GenerateFromPassword([]byte(accessPw[k]), bcrypt.MinCost)
				if err != nil {
					fatal("bcrypt: %v", err)
				}
				accessHash[k] = string(h)
			}
			u.Password = accessHash[k]
		}
		if err := w.DB.StoreUser(context.Background(), u); err != nil {
			fatal("failed to store user: %v", err)
		}
		if name == "alice" || name == "bob" {
			rec := w.AddNet(u, NewFakeNet("n-"+name), "net"+name)
			m.netID[name] = rec.ID
		}
	}
	w.Start()
	m.waitUp(init)
	return m, nil
}

func (m *access) World() *World { return m.w }

func (m *access) Close() {
	if m.sock != nil {
		m.sock.conn.Close()
	}
	m.w.Destroy()
	m.srv.Close()
}

// waitUp gives the bouncer the time to reach the expected connections.
func (m *access) waitUp(st Step) {
	want := map[string]bool{}
	if st.Str("op") == "init" {
		for name := range st.Map("users") {
			want[name] = st.Map("users").Map(name).Bool("enabled")
		}
	} else {
		for _, u := range st.Map("exp").Strs("up") {
			want[u] = true
		}
	}
	for u := range m.netID {
		n := m.w.Nets["n-"+u]
		n.waitFor(3*time.Second, func() bool {
			c := n.conn
			return (c != nil && !c.Closed() && c.Registered) == want[u]
		})
	}
}

func (m *access) pw(u string, p int) string {
	switch p {
	case 9:
		return "tok-" + u
	case 8:
		if u == "root" {
			return "tok-alice"
		}
		return "tok-root"
	case 7:
		return "tok-dead"
	case 6:
		return "tok-anon"
	case 5:
		return "boom"
	}
	return accessPw[p]
}

func (m *access) wrong() string {
	return "not it"
}

func (m *access) suffix(u, netw string, cl bool) string {
	s := ""
	if cl && len(u)%2 == 0 {
		s += "@cli"
	}
	switch netw {
	case "own":
		s += "/net" + u
	case "nope":
		s += "/127.0.0.1:1"
	}
	if cl && len(u)%2 == 1 {
		s += "@cli"
	}
	return s
}

func plain(identity, user, pass string) string {
	return base64.StdEncoding.EncodeToString([]byte(identity + "\x00" + user + "\x00" + pass))
}

func (m *access) login(st Step) ([]string, error) {
	c, err := net.Dial("tcp", m.w.ln.Addr().String())
	if err != nil {
		fatal("failed to dial server: %v", err)
	}
	p := newPeer("client "+st.Str("c"), c, nil)
	u, k := st.Str("u"), st.Int("p")
	full := u + m.suffix(u, st.Str("net"), st.Bool("cl"))
	pass := m.pw(u, k)
	nick := "NICK somenick"
	user := func(name string) string { return fmt.Sprintf("USER %s 0 * :Real", name) }
	sasl := func(resp string) []string {
		return []string{"AUTHENTICATE PLAIN", "AUTHENTICATE " + resp}
	}
	start := []string{"CAP LS 302", "CAP REQ :sasl soju.im/bouncer-networks"}
	var lines []string
	add := func(l ...string) { lines = append(lines, l...) }
	switch st.Str("how") {
	case "pass":
		add("PASS :"+pass, nick, user(full))
	case "emptypass":
		add(start...)
		add(nick, user(full))
		add(sasl(plain("", full, ""))...)
		add("CAP END")
	case "order":
		add(nick, user(full), "PASS :pw-one")
	case "none":
		add(nick, user(full), "JOIN #x", "PRIVMSG BouncerServ :help")
	case "abort":
		add(start...)
		add(nick, user(full), "AUTHENTICATE PLAIN", "AUTHENTICATE *", "CAP END")
	case "anonymous":
		add(start...)
		add(nick, user(full), "AUTHENTICATE ANONYMOUS", "AUTHENTICATE "+base64.StdEncoding.EncodeToString([]byte(u)), "CAP END")
	case "sasl":
		add(start...)
		add(nick, user("whatever"))
		add(sasl(plain("", full, pass))...)
		add("CAP END")
	case "sasluser":
		add(start...)
		add(nick, user("x"+full))
		add(sasl(plain("", u, pass))...)
		add("CAP END")
	case "badgood":
		add(start...)
		add(nick, user("whatever"))
		add(sasl(plain("", full, m.wrong()))...)
		add(sasl(plain("", full, pass))...)
		add("CAP END")
	case "goodbad":
		add(start...)
		add(nick, user("whatever"))
		add(sasl(plain("", full, pass))...)
		add(sasl(plain("", st.Str("v"), m.wrong()))...)
		add("CAP END")
	case "mismatch":
		a, b := "/127.0.0.1:1", "/127.0.0.1:2"
		if st.Str("what") == "client" {
			a, b = "@one", "@two"
		}
		add(start...)
		add(nick, user("x"+a))
		add(sasl(plain("", u+b, pass))...)
		add("CAP END")
	case "imp":
		v := st.Str("v")
		as := v + m.suffix(v, st.Str("net"), false)
		if u == v {
			u = as
		}
		add(start...)
		add(nick, user("whatever"))
		add(sasl(plain(as, u, pass))...)
		add("CAP END")
	case "bearer":
		add(start...)
		add(nick, user("whatever"))
		resp := fmt.Sprintf("n,a=%s,\x01auth=Bearer %s\x01\x01", u, pass)
		add("AUTHENTICATE OAUTHBEARER", "AUTHENTICATE "+base64.StdEncoding.EncodeToString([]byte(resp)))
		add("CAP END")
	case "bind":
		id := fmt.Sprint(m.netID[u])
		switch st.Str("id") {
		case "own":
			if m.netID[u] == 0 {
				id = "98"
			}
		case "other":
			id = fmt.Sprint(m.netID["bob"])
			if u == "bob" {
				id = fmt.Sprint(m.netID["alice"])
			}
		case "unknown":
			id = "99"
		case "garbage":
			id = "x1"
		}
		add(start...)
		if st.Str("id") == "early" {
			add("BOUNCER BIND " + id)
		}
		add(nick, user("whatever"))
		add(sasl(plain("", u, pass))...)
		if st.Str("id") != "early" {
			add("BOUNCER BIND " + id)
		}
		add("CAP END")
	case "multi":
		m.multi(st, add, nick, user)
	default:
		fatal("how: %v", st.Str("how"))
	}
	tok := "logindone"
	p.Send(append(lines, "PING "+tok)...)
	var welcome *irc.Message
	netid := ""
	pong := false
	scan := func() {
		for _, msg := range p.Take() {
			switch msg.Command {
			case "001":
				welcome = msg
			case "005":
				for _, s := range msg.Params {
					if strings.HasPrefix(s, "BOUNCER_NETID=") {
						netid = strings.TrimPrefix(s, "BOUNCER_NETID=")
					}
				}
			case "PONG":
				pong = true
			}
		}
	}
	deadline := time.Now().Add(syncTimeout)
	for !pong && !p.Closed() {
		scan()
		if time.Now().After(deadline) {
			return []string{"no answer"}, nil
		}
		time.Sleep(300 * time.Microsecond)
	}
	scan()
	if welcome == nil {
		// Whatever it sends now is not served.
		p.Send("PRIVMSG BouncerServ :help", "BOUNCER LISTNETWORKS", "JOIN #x", "WHO x", "MARKREAD #x", "NICK y", "PING junk")
		p.wait(200*time.Millisecond, func() bool { return p.closed || len(p.inbox) >= 7 })
		for _, msg := range p.Take() {
			if msg.Command == "PRIVMSG" || msg.Command == "NOTICE" || msg.Command == "BATCH" || msg.Command == "001" || msg.Command == "JOIN" {
				p.conn.Close()
				return []string{"refused, but served: " + msg.String()}, nil
			}
		}
		p.conn.Close()
		p.WaitClosed(syncTimeout)
		return []string{"refused"}, nil
	}
	m.w.Clients[st.Str("c")] = p
	who := welcome.Params[0]
	if i := strings.Index(who, "_"); i >= 0 {
		who = who[:i]
	}
	b := ""
	if netid != "" {
		b = "network " + netid
		if netid == fmt.Sprint(m.netID[who]) {
			b = "own"
		}
	}
	m.acct[st.Str("c")] = who
	return []string{"in", who, b}, nil
}

// chunks splits a SASL response.
func chunks(resp string) []string {
	var l []string
	for len(resp) >= 400 {
		l = append(l, "AUTHENTICATE "+resp[:400])
		resp = resp[400:]
	}
	if resp == "" {
		resp = "+"
	}
	return append(l, "AUTHENTICATE "+resp)
}

// multi makes several attempts.
func (m *access) multi(st Step, add func(...string), nick string, user func(string) string) {
	bind := func(at int) {
		if st.Str("bind") != "none" && st.Int("bindat") == at {
			add(fmt.Sprintf("BOUNCER BIND %v", m.netID[st.Str("bind")]))
		}
	}
	add("CAP LS 302", "CAP REQ :sasl soju.im/bouncer-networks")
	switch st.Str("pw") {
	case "good":
		add("PASS :" + m.pw(st.Str("u"), st.Int("p")))
	case "wrong":
		add("PASS :" + m.wrong())
	}
	usr := st.Str("u")
	add(nick, user(usr+m.suffix(usr, st.Str("fb"), false)))
	bind(0)
	for i, x := range st.List("ts") {
		t := Step(x.(map[string]interface{}))
		u, v, netw := t.Str("u"), t.Str("v"), t.Str("net")
		pass := m.pw(u, t.Int("p"))
		// How long the response is to be, before it is encoded.
		want := []int{0, 300, 450, 600}[t.Int("long")]
		pad := func(f func(pad string) string) string {
			s := f("")
			for k := 0; len(s) < want && want-len(s) > 2; k++ {
				s = f(strings.Repeat("x", k))
			}
			return base64.StdEncoding.EncodeToString([]byte(s))
		}
		client := func(p string) string {
			if p != "" {
				p = "@" + p
			}
			return p
		}
		switch t.Str("k") {
		case "plain":
			add("AUTHENTICATE PLAIN")
			add(chunks(pad(func(p string) string {
				return "\x00" + u + m.suffix(u, netw, false) + client(p) + "\x00" + pass
			}))...)
		case "imp":
			add("AUTHENTICATE PLAIN")
			add(chunks(pad(func(p string) string {
				id := v + m.suffix(v, netw, false) + client(p)
				as := u
				if u == v {
					as = id
				}
				return id + "\x00" + as + "\x00" + pass
			}))...)
		case "bearer":
			add("AUTHENTICATE OAUTHBEARER")
			add(chunks(pad(func(p string) string {
				s := fmt.Sprintf("n,a=%s,\x01", u)
				if p != "" {
					s += "host=" + p + "\x01"
				}
				return s + fmt.Sprintf("auth=Bearer %s\x01\x01", pass)
			}))...)
		case "abort":
			add("AUTHENTICATE PLAIN")
			resp := plain(u, u, m.wrong()+strings.Repeat("y", 300))
			switch t.Int("long") {
			case 1:
				add("AUTHENTICATE " + resp[:400])
			case 2, 3:
				add("AUTHENTICATE "+resp[:400], "AUTHENTICATE "+resp[:400])
			}
			add("AUTHENTICATE *")
		case "junk":
			switch t.Int("long") {
			case 0:
				add("AUTHENTICATE PLAIN", "AUTHENTICATE !!!!")
			case 1:
				add("AUTHENTICATE PLAIN", "AUTHENTICATE "+strings.Repeat("!", 400), "AUTHENTICATE +")
			case 2:
				add("AUTHENTICATE ANONYMOUS", "AUTHENTICATE "+base64.StdEncoding.EncodeToString([]byte(u)))
			case 3:
				add("AUTHENTICATE SCRAM-SHA-256")
			}
		}
		bind(i + 1)
	}
	bind(9)
	add("CAP END")
}

var statusRe = regexp.MustCompile(`^(\S+?)(?: \((admin)?(?:, )?(disabled)?\))?: (\d+) networks(?: \((-?\d+) max\))?$`)

// service runs a service command and returns the reply and its lines.
func (m *access) service(a, cmd string) (string, []string, error) {
	var lines []string
	if a == "sock" {
		if m.sock == nil {
			m.sock = m.w.DialAdmin()
		}
		m.sock.Take()
		m.sock.Send("BOUNCERSERV :" + cmd)
		msg, err := m.sock.WaitMsg(func(msg *irc.Message) bool { return msg.Command == "FAIL" || msg.Command == "BOUNCERSERV" })
		if err != nil {
			return "", nil, err
		}
		for _, x := range m.sock.Take() {
			if x.Command == "PRIVMSG" {
				lines = append(lines, param(x, 1))
			}
		}
		if msg.Command == "FAIL" {
			return "err", lines, nil
		}
		return "ok", lines, nil
	}
	p := m.w.Clients[a]
	p.Take()
	p.Send("PRIVMSG BouncerServ :" + cmd)
	if err := p.Sync(); err != nil && !p.Closed() {
		return "", nil, err
	}
	reply := "ok"
	for _, x := range p.Take() {
		if x.Command == "PRIVMSG" && x.Prefix != nil && x.Prefix.Name == "BouncerServ" {
			t := param(x, 1)
			if strings.HasPrefix(t, "error: ") {
				reply = "err"
			} else {
				lines = append(lines, t)
			}
		}
		if x.Command == "NOTICE" && strings.HasPrefix(param(x, 0), "$") {
			lines = append(lines, "NOTICE "+param(x, 1))
		}
	}
	if reply == "ok" && len(lines) == 0 {
		reply = "nothing"
	}
	return reply, lines, nil
}

func fieldArgs(u string, f Step) string {
	s := ""
	if f.Has("pw") {
		switch f.Int("pw") {
		case 0:
			s += " -disable-password"
		case 3:
			s += " -password 'pw-one' -disable-password"
		default:
			s += fmt.Sprintf(" -password '%s'", accessPw[f.Int("pw")])
		}
	}
	if f.Has("admin") {
		s += fmt.Sprintf(" -admin %v", f.Bool("admin"))
	}
	if f.Has("enabled") {
		s += fmt.Sprintf(" -enabled %v", f.Bool("enabled"))
	}
	if f.Has("max") {
		s += fmt.Sprintf(" -max-networks %v", f.Int("max"))
	}
	if f.Has("nick") {
		n := f.Str("nick")
		if n != "" {
			n = u + n
		}
		s += fmt.Sprintf(" -nick '%s'", n)
	}
	if f.Has("real") {
		s += fmt.Sprintf(" -realname \"%s\"", f.Str("real"))
	}
	return s
}

func (m *access) Do(st Step) (interface{}, error) {
	w := m.w
	a := st.Str("a")
	reply := []string{}
	var lines [][]string
	heard := []string{}
	owner := func(t string) string {
		if t != "" || a == "sock" {
			return t
		}
		return m.acct[a]
	}
	switch st.Str("op") {
	case "login":
		r, err := m.login(st)
		if err != nil {
			return nil, err
		}
		reply = r
	case "logout":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "create":
		cmd := "user create"
		if u := st.Str("u"); u != "" {
			cmd += " -username " + u
		}
		switch p := st.Int("p"); p {
		case -1:
		case 0:
			cmd += " -disable-password"
		default:
			cmd += fmt.Sprintf(" -password '%s'", accessPw[p])
		}
		if st.Bool("admin") {
			cmd += " -admin"
		}
		if !st.Bool("enabled") {
			cmd += " -enabled=false"
		}
		r, _, err := m.service(a, cmd)
		if err != nil {
			return nil, err
		}
		reply = append(reply, r)
	case "update", "run":
		t := st.Str("t")
		cmd := "user update " + t
		if st.Str("op") == "run" {
			cmd = "user run " + t + " user update"
		}
		r, _, err := m.service(a, cmd+fieldArgs(owner(t), st.Map("f")))
		if err != nil {
			return nil, err
		}
		reply = append(reply, r)
	case "delete":
		t := st.Str("t")
		h := fmt.Sprintf(" %x", sha1.Sum([]byte(t)))[:7]
		switch st.Str("tok") {
		case "wrong":
			h = " 00" + h[3:]
		case "none":
			h = ""
		}
		r, _, err := m.service(a, "user delete "+t+h)
		if err != nil {
			return nil, err
		}
		if p := w.Clients[a]; p != nil && st.Str("tok") == "right" {
			// One's own account is deleted in the background.
			p.wait(2*time.Second, func() bool { return p.closed || r == "err" })
			if r == "nothing" && p.Closed() {
				// The farewell may be lost.
				r = "ok"
			}
		}
		reply = append(reply, r)
	case "look":
		cmd := map[string]string{"status": "user status", "status1": "user status " + st.Str("t"), "server": "server status",
			"notice": "server notice 'hear me'", "debug": "server debug true", "help": "help"}[st.Str("what")]
		for _, p := range w.Clients {
			if a == "sock" || p != w.Clients[a] {
				p.Take()
			}
		}
		r, l, err := m.service(a, cmd)
		if err != nil {
			return nil, err
		}
		if st.Str("what") == "debug" && r == "nothing" {
			r = "ok"
		}
		reply = append(reply, r)
		for _, s := range l {
			if sm := statusRe.FindStringSubmatch(s); sm != nil && strings.HasPrefix(st.Str("what"), "status") {
				max := sm[5]
				if max == "" {
					max = "-1"
				}
				lines = append(lines, []string{sm[1], sm[2], sm[3], sm[4], max})
			} else if s == "NOTICE hear me" {
				heard = append(heard, a)
			} else if strings.HasPrefix(st.Str("what"), "status") {
				lines = append(lines, []string{s})
			}
		}
	case "sockclient":
		p := w.DialAdmin()
		p.Send(st.Str("cmd"))
		p.Send("BOUNCERSERV :user status")
		p.wait(time.Second, func() bool { return p.closed || len(p.inbox) > 0 })
		reply = []string{"refused"}
		for i, msg := range p.Take() {
			if msg.Command == "001" || (i == 0 && msg.Command != "ERROR" && msg.Command != "421") {
				reply = []string{"served: " + msg.String()}
			}
		}
		if strings.HasPrefix(st.Str("cmd"), "PRIVMSG") {
			// Merely unknown there.
		} else if !p.WaitClosed(2 * time.Second) {
			reply = []string{"not closed"}
		}
		p.conn.Close()
	case "restart":
		if m.sock != nil {
			m.sock.conn.Close()
			m.sock = nil
		}
		var err error
		if st.Bool("kill") {
			err = w.Crash()
		} else {
			err = w.Restart()
		}
		if err != nil {
			return nil, err
		}
	}
	// Connections about to be closed.
	want := map[string]bool{}
	for _, c := range st.Map("exp").Strs("live") {
		want[c] = true
	}
	for name, p := range w.Clients {
		if !want[name] {
			p.WaitClosed(2 * time.Second)
		}
	}
	if err := w.Sync(); err != nil {
		return nil, err
	}
	for name, p := range w.Clients {
		for _, msg := range p.Take() {
			if msg.Command == "NOTICE" && strings.HasPrefix(param(msg, 0), "$") && param(msg, 1) == "hear me" {
				heard = append(heard, name)
			}
		}
		if p.Closed() {
			delete(w.Clients, name)
		}
	}
	w.WaitDownstreams()
	sort.Strings(heard)
	m.waitUp(st)
	if st.Map("f").Has("real") && len(reply) == 1 && reply[0] == "ok" {
		// Networks are told the new name by connecting again.
		for u, f := range st.Map("exp").Map("users") {
			r := Step(f.(map[string]interface{})).Str("real")
			if n := w.Nets["n-"+u]; n != nil && r != "" {
				n.waitFor(3*time.Second, func() bool {
					return n.conn == nil || n.conn.Closed() || (n.conn.Registered && n.conn.Realname == r)
				})
			}
		}
		m.waitUp(st)
	}
	live := []string{}
	for name := range w.Clients {
		live = append(live, name)
	}
	sort.Strings(live)
	up := []string{}
	for _, u := range []string{"alice", "bob"} {
		if uc := w.Nets["n-"+u].Up(); uc != nil {
			up = append(up, u)
		}
	}
	users := map[string]interface{}{}
	// One's own account is deleted in the background.
	l, err := w.DB.ListUsers(context.Background())
	for i := 0; i < 200 && len(l) > len(st.Map("exp").Map("users")); i++ {
		time.Sleep(5 * time.Millisecond)
		l, err = w.DB.ListUsers(context.Background())
	}
	if err != nil {
		return nil, err
	}
	for _, u := range l {
		k := 0
		if u.Password != "" {
			if v, ok := m.hashes[u.Password]; ok {
				k = v
			} else {
				k = 99
				for i := 1; i <= 2; i++ {
					if bcrypt.CompareHashAndPassword([]byte(u.Password), []byte(accessPw[i])) == nil {
						k = i
					}
				}
				m.hashes[u.Password] = k
			}
		}
		users[u.Username] = map[string]interface{}{"pw": k, "admin": u.Admin, "enabled": u.Enabled, "max": u.MaxNetworks, "real": u.Realname, "nick": strings.TrimPrefix(u.Nick, u.Username)}
		nets, err := w.DB.ListNetworks(context.Background(), u.ID)
		if err != nil {
			return nil, err
		}
		if len(nets) > 1 || (len(nets) == 1 && nets[0].ID != m.netID[u.Username]) {
			users[u.Username] = "unexpected networks"
		}
	}
	obs := map[string]interface{}{"reply": reply, "users": users, "up": up, "live": live}
	if st.Str("op") == "look" {
		if lines == nil {
			lines = [][]string{}
		}
		obs["lines"] = lines
		obs["heard"] = heard
	}
	return obs, nil
}
