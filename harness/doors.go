package main

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	"github.com/coder/websocket"
	"gopkg.in/irc.v4"
)

// doors replays Doors.tla: the program itself, in a network namespace.
type doors struct {
	w     *World
	p     *sojuProc
	cfg   Step
	cl    map[int]*doorClient
	srvs  map[string]*FakeNet
	last  map[string]*UpConn // the last connection of each network
	up    map[string]bool
	ident map[string]string // ident -> user
	ips   map[string]string // address -> user
}

type doorClient struct {
	*Peer
	door string
	ws   *wsConn
	net  string
}

var doorAddr = map[string]string{"s1": "127.0.0.11", "s2": "127.0.0.12", "else": "127.0.0.13"}
var doorNets = map[string]string{"a1": "s1", "a2": "s2", "b1": "s1"}

func doorOwner(n string) string {
	if n == "b1" {
		return "bob"
	}
	return "alice"
}

func init() {
	modules["doors"] = func(init Step) (Module, error) {
		doorCerts()
		m := &doors{
			w:     NewWorld(),
			cl:    make(map[int]*doorClient),
			srvs:  make(map[string]*FakeNet),
			last:  make(map[string]*UpConn),
			up:    make(map[string]bool),
			ident: make(map[string]string),
			ips:   make(map[string]string),
		}
		for _, s := range []string{"s1", "s2"} {
			ln, err := net.Listen("tcp", doorAddr[s]+":6667")
			if err != nil {
				fatal("failed to listen: %v", err)
			}
			n := &FakeNet{Name: s, Host: s + ".example", Addr: "irc+insecure://" + doorAddr[s] + ":6667"}
			n.cond = sync.NewCond(&n.mu)
			n.ln = ln
			go n.acceptLoop()
			m.srvs[s] = n
			m.w.Nets[s] = n
		}
		for _, name := range []string{"alice", "bob"} {
			u := m.w.AddUser(name, false)
			u.Password = upPassword()
			if err := m.w.DB.StoreUser(ctxBG, u); err != nil {
				fatal("%v", err)
			}
			for _, n := range sortedKeys(doorNets) {
				if doorOwner(n) != name {
					continue
				}
				rec := database.NewNetwork(m.srvs[doorNets[n]].Addr)
				rec.Name, rec.Nick = n, n
				if err := m.w.DB.StoreNetwork(ctxBG, u.ID, rec); err != nil {
					fatal("%v", err)
				}
				if err := m.w.DB.StoreChannel(ctxBG, rec.ID, &database.Channel{Name: "#c"}); err != nil {
					fatal("%v", err)
				}
				m.up[n] = true
			}
		}
		m.w.DB.Close()
		for n, b := range map[string]string{"one": "Hello.\n", "two": "Hello\nagain.\n"} {
			os.WriteFile(filepath.Join(m.w.Dir, "motd-"+n), []byte(b), 0600)
		}
		for i, c := range doorCert {
			os.WriteFile(filepath.Join(m.w.Dir, fmt.Sprintf("c%d.pem", i+1)), c.cert, 0600)
			os.WriteFile(filepath.Join(m.w.Dir, fmt.Sprintf("c%d.key", i+1)), c.key, 0600)
		}
		m.cfg = Step{"host": "h1.example", "title": "", "motd": "", "trust": "no", "origin": false, "files": false, "ingress": "", "cert": "c1", "ips": ""}
		m.p = &sojuProc{dir: m.w.Dir}
		m.p.config(m.config()...)
		return m, m.start()
	}
}

func sortedKeys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var doorCert []struct{ cert, key, der []byte }

func doorCerts() {
	for len(doorCert) < 2 {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			fatal("%v", err)
		}
		tmpl := &x509.Certificate{
			SerialNumber: big.NewInt(int64(len(doorCert) + 1)), Subject: pkix.Name{CommonName: "verif"},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		if err != nil {
			fatal("%v", err)
		}
		kb, _ := x509.MarshalECPrivateKey(key)
		doorCert = append(doorCert, struct{ cert, key, der []byte }{
			pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}),
			pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), der})
	}
}

func (m *doors) file(name string) string { return filepath.Join(m.w.Dir, name) }

func (m *doors) config() []string {
	c := m.cfg
	l := []string{
		"hostname " + c.Str("host"),
		"db sqlite3 " + m.w.DBPath,
		"message-store memory",
		"listen irc+insecure://127.0.0.1:6667",
		"listen ircs://127.0.0.1:6697",
		"listen unix://" + m.file("i.sock"),
		"listen ws+insecure://127.0.0.1:8067",
		"listen http+insecure://127.0.0.1:8080",
		"listen wss://127.0.0.1:8443",
		"listen ident://0.0.0.0:113",
		"listen unix+admin://" + m.file("a.sock"),
		"tls " + m.file(c.Str("cert")+".pem") + " " + m.file(c.Str("cert")+".key"),
	}
	if s := c.Str("title"); s != "" {
		l = append(l, `title "`+s+`"`)
	}
	if s := c.Str("motd"); s != "" {
		l = append(l, "motd "+m.file("motd-"+s))
	}
	switch c.Str("trust") {
	case "one":
		l = append(l, "accept-proxy-ip 127.0.0.2/32")
	case "localhost":
		l = append(l, "accept-proxy-ip localhost")
	}
	if c.Bool("origin") {
		l = append(l, "http-origin ok.example")
	}
	switch c.Str("ips") {
	case "v4":
		l = append(l, "upstream-user-ip 127.66.0.0/16")
	case "v6":
		l = append(l, "upstream-user-ip fd00::/64")
	case "both":
		l = append(l, "upstream-user-ip fd00::/64 127.67.3.0/24")
	}
	if c.Bool("files") {
		l = append(l, "file-upload fs "+m.file("up"))
	}
	if s := c.Str("ingress"); s != "" {
		l = append(l, "http-ingress "+s)
	}
	return l
}

// start runs the program until it is ready and its networks are.
func (m *doors) start() error {
	if err := m.p.start(m.file("a.sock"), m.file("i.sock")); err != nil {
		return err
	}
	deadline := time.Now().Add(syncTimeout)
	for _, a := range []string{"127.0.0.1:6667", "127.0.0.1:6697", "127.0.0.1:8067", "127.0.0.1:8080", "127.0.0.1:8443", "127.0.0.1:113"} {
		for {
			c, err := net.Dial("tcp", a)
			if err == nil {
				reset(c)
				break
			}
			if time.Now().After(deadline) {
				return fmt.Errorf("the program does not listen on %v", a)
			}
			time.Sleep(500 * time.Microsecond)
		}
	}
	for {
		r, err := m.serv("user status alice")
		if err != nil {
			return err
		}
		if r.ok {
			break
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("the program does not start")
		}
		time.Sleep(time.Millisecond)
	}
	for _, n := range sortedKeys(doorNets) {
		if m.up[n] {
			if err := m.waitUp(n); err != nil {
				return err
			}
		}
	}
	return nil
}

// find returns the connection of a network, if it is up.
func (m *doors) find(n string) *UpConn {
	for _, uc := range m.srvs[doorNets[n]].Live() {
		if uc.isRegistered() && uc.Nick == n {
			return uc
		}
	}
	return nil
}

func (m *doors) waitUp(n string) error {
	for deadline := time.Now().Add(syncTimeout); time.Now().Before(deadline); time.Sleep(500 * time.Microsecond) {
		uc := m.find(n)
		if uc == nil {
			continue
		}
		if _, err := uc.WaitMsg(func(msg *irc.Message) bool { return msg.Command == "JOIN" }); err != nil {
			continue
		}
		m.last[n] = uc
		if err := uc.Sync(); err != nil {
			return err
		}
		uc.Take()
		return nil
	}
	return fmt.Errorf("network %v: %w", n, errNoAnswer)
}

type servReply struct {
	ok     bool
	server string
	text   string
}

// serv runs a command as an administrator.
func (m *doors) serv(cmd string) (servReply, error) {
	var r servReply
	c, err := net.Dial("unix", m.file("a.sock"))
	if err != nil {
		return r, err
	}
	defer c.Close()
	p := newPeer("admin", c, nil)
	p.Send("BOUNCERSERV :" + cmd)
	msg, err := p.WaitMsg(func(msg *irc.Message) bool { return msg.Command == "FAIL" || msg.Command == "BOUNCERSERV" })
	if err != nil {
		return r, err
	}
	r.ok, r.server = msg.Command == "BOUNCERSERV", msg.Prefix.Name
	for _, msg := range p.Take() {
		if msg.Command == "PRIVMSG" {
			r.text += msg.Trailing() + "\n"
		}
	}
	return r, nil
}

func (m *doors) ServerLog() string { return m.p.log.String() }

func (m *doors) Close() {
	for _, c := range m.cl {
		reset(c.conn)
	}
	m.p.stop(os.Kill)
	for _, n := range m.srvs {
		n.ln.Close()
		n.Close()
	}
	m.w.Destroy()
}

// wsConn makes a WebSocket look like a connection with lines.
type wsConn struct {
	net.Conn
	ws  *websocket.Conn
	buf []byte
	out []byte
}

func (c *wsConn) Read(b []byte) (int, error) {
	for len(c.buf) == 0 {
		typ, data, err := c.ws.Read(ctxBG)
		if err != nil {
			return 0, err
		}
		if typ != websocket.MessageText {
			data = []byte("BINARY")
		}
		if strings.ContainsAny(string(data), "\r\n\x00") {
			data = []byte("SEVERALLINES")
		}
		c.buf = append(data, '\r', '\n')
	}
	n := copy(b, c.buf)
	c.buf = c.buf[n:]
	return n, nil
}

func (c *wsConn) frame(s string) error {
	ctx, cancel := context.WithTimeout(ctxBG, syncTimeout)
	defer cancel()
	return c.ws.Write(ctx, websocket.MessageText, []byte(s))
}

func (c *wsConn) Write(b []byte) (int, error) {
	c.out = append(c.out, b...)
	for {
		i := strings.Index(string(c.out), "\r\n")
		if i < 0 {
			return len(b), nil
		}
		if err := c.frame(string(c.out[:i])); err != nil {
			return 0, err
		}
		c.out = c.out[i+2:]
	}
}

func (c *wsConn) Close() error { return c.ws.Close(websocket.StatusNormalClosure, "") }

func doorDialer(from string) *net.Dialer {
	return &net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(from)}, Timeout: syncTimeout}
}

func (m *doors) connect(st Step, res map[string]interface{}) error {
	door := st.Str("door")
	res["how"], res["server"], res["title"], res["motd"], res["files"], res["host"], res["cert"] = "", "", "", "", "", "", ""
	cert := func(cs tls.ConnectionState) {
		for i, c := range doorCert {
			if len(cs.PeerCertificates) > 0 && string(cs.PeerCertificates[0].Raw) == string(c.der) {
				res["cert"] = fmt.Sprintf("c%d", i+1)
			}
		}
	}
	d := doorDialer(st.Str("from"))
	tlsCfg := &tls.Config{InsecureSkipVerify: true}
	var c net.Conn
	var ws *wsConn
	var err error
	claim := st.Str("claim")
	switch door {
	case "tcp":
		c, err = d.Dial("tcp", "127.0.0.1:6667")
		if err == nil && claim != "" {
			io.WriteString(c, claim+"\r\n")
		}
	case "tls":
		c, err = d.Dial("tcp", "127.0.0.1:6697")
		if err == nil {
			tc := tls.Client(c, tlsCfg)
			if err := tc.Handshake(); err != nil {
				return err
			}
			cert(tc.ConnectionState())
			c = tc
		}
	case "unix":
		c, err = net.Dial("unix", m.file("i.sock"))
	case "admin":
		c, err = net.Dial("unix", m.file("a.sock"))
	case "ws", "http", "wss":
		u := map[string]string{"ws": "ws://127.0.0.1:8067/", "http": "ws://127.0.0.1:8080/socket", "wss": "wss://127.0.0.1:8443/"}[door]
		h := make(http.Header)
		switch o := st.Str("origin"); o {
		case "":
		case "same":
			h.Set("Origin", "https://"+strings.Split(u, "/")[2])
		case "sub":
			h.Set("Origin", "https://sub."+strings.Split(u, "/")[2])
		default:
			h.Set("Origin", o)
		}
		if k, v, ok := strings.Cut(claim, ": "); ok {
			h.Set(k, v)
		}
		tr := &http.Transport{DialContext: d.DialContext, TLSClientConfig: tlsCfg, DisableKeepAlives: true}
		tr.DialTLSContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
			c, err := d.DialContext(ctx, network, addr)
			if err != nil {
				return nil, err
			}
			tc := tls.Client(c, tlsCfg)
			if err := tc.Handshake(); err != nil {
				return nil, err
			}
			cert(tc.ConnectionState())
			return tc, nil
		}
		ctx, cancel := context.WithTimeout(ctxBG, syncTimeout)
		defer cancel()
		wc, resp, e := websocket.Dial(ctx, u, &websocket.DialOptions{HTTPClient: &http.Client{Transport: tr}, HTTPHeader: h, Subprotocols: []string{"text.ircv3.net"}})
		if e != nil {
			if resp != nil && resp.StatusCode == 403 {
				res["how"] = "origin"
				return nil
			}
			return e
		}
		if wc.Subprotocol() != "text.ircv3.net" {
			return fmt.Errorf("subprotocol %q", wc.Subprotocol())
		}
		wc.SetReadLimit(1 << 20)
		ws = &wsConn{ws: wc}
		a, b := net.Pipe() // for the methods not needed
		b.Close()
		ws.Conn = a
		c = ws
	}
	if err != nil {
		return err
	}
	p := newPeer("client "+door, c, nil)
	name := st.Str("user")
	if n := st.Str("net"); n != "" {
		name += "/" + n
	}
	p.Send("PASS "+st.Str("pass"), "NICK "+st.Str("user"), "USER "+name+" 0 * :Real")
	msg, err := p.WaitMsg(func(msg *irc.Message) bool {
		return msg.Command == "001" || msg.Command == "ERROR" || msg.Command == "464"
	})
	if err != nil {
		return err
	}
	switch msg.Command {
	case "ERROR":
		res["how"] = "not irc"
	case "464":
		res["how"] = "password"
	}
	if msg.Command != "001" {
		closed := p.WaitClosed(syncTimeout)
		reset(c)
		if !closed {
			return fmt.Errorf("refused, but not closed")
		}
		for _, msg := range p.Take() {
			if msg.Command == "001" {
				return fmt.Errorf("welcomed after all")
			}
		}
		return nil
	}
	res["how"] = "in"
	if err := p.Sync(); err != nil {
		return err
	}
	l := p.Take()
	var hosts []string
	if st.Str("net") == "" {
		p.Send("WHO "+st.Str("user"), "WHOIS "+st.Str("user"))
		if err := p.Sync(); err != nil {
			return err
		}
		for _, msg := range p.Take() {
			switch {
			case msg.Command == "352" && len(msg.Params) == 8:
				hosts = append(hosts, msg.Params[3], msg.Params[4])
			case msg.Command == "311" && len(msg.Params) == 6:
				hosts = append(hosts, msg.Params[3])
			}
		}
		if len(hosts) != 3 || hosts[0] != hosts[2] || hosts[1] != m.cfg.Str("host") {
			res["host"] = fmt.Sprintf("%q", hosts)
		} else if hosts[0] == "@" || hosts[0] == "" {
			res["host"] = "local"
		} else {
			res["host"] = hosts[0]
		}
	}
	var motd []string
	for _, msg := range l {
		switch msg.Command {
		case "002":
			res["server"] = strings.TrimPrefix(msg.Trailing(), "Your host is ")
		case "004":
			if msg.Params[1] != res["server"] {
				res["server"] = "004 says " + msg.Params[1]
			}
		case "005":
			for _, t := range msg.Params[1:] {
				if v, ok := strings.CutPrefix(t, "NETWORK="); ok && st.Str("net") == "" {
					res["title"] = strings.ReplaceAll(v, `\x20`, " ")
				}
				if v, ok := strings.CutPrefix(t, "soju.im/FILEHOST="); ok {
					res["files"] = v
				}
			}
		case "372":
			motd = append(motd, strings.TrimPrefix(msg.Trailing(), "- "))
		}
	}
	switch s := strings.Join(motd, "|"); s {
	case "Hello.":
		res["motd"] = "one"
	case "Hello|again.":
		res["motd"] = "two"
	default:
		res["motd"] = s
	}
	m.cl[st.Int("i")] = &doorClient{p, door, ws, st.Str("net")}
	return nil
}

var doorText = map[string]string{
	"plain":  "hello there",
	"utf8":   "gr\u00fc\u00dfe \u2603",
	"colon":  ":colon :x",
	"long":   strings.Repeat("0123456789", 300),
	"ctrl":   "\x02bold\x1f\x0304,05col\x0f",
	"bad":    "bad \xff\xc3 end",
	"fixed":  "bad \uFFFD end",
	"spaces": "  two  spaces ",
}

func doorKind(text string) string {
	for k, v := range doorText {
		if v == text {
			return k
		}
	}
	return "other: " + text
}

// said returns what was said in the messages to a target.
func said(l []*irc.Message, cmd, target string) []interface{} {
	res := []interface{}{}
	for _, msg := range l {
		if msg.Command == "SEVERALLINES" || msg.Command == "BINARY" || msg.Command == "UNPARSABLE" {
			res = append(res, msg.Command)
		}
		if msg.Command == cmd && len(msg.Params) == 2 && strings.HasPrefix(msg.Params[0], target) {
			res = append(res, doorKind(msg.Params[1]))
		}
	}
	return res
}

func (m *doors) heard(except int, f func(l []*irc.Message) []interface{}) ([]interface{}, error) {
	res := []interface{}{}
	for i := 1; i <= 9; i++ {
		c := m.cl[i]
		if c == nil || i == except {
			continue
		}
		if c.Closed() {
			res = append(res, map[string]interface{}{"i": i, "g": []interface{}{"closed"}})
			continue
		}
		if err := c.Sync(); err != nil {
			return nil, err
		}
		res = append(res, map[string]interface{}{"i": i, "g": f(c.Take())})
	}
	return res, nil
}

func (m *doors) speak(st Step) error {
	c := m.cl[st.Int("i")]
	line := "PRIVMSG #c :" + doorText[st.Str("text")]
	raw := func(s string) { io.WriteString(c.conn, s) }
	form := st.Str("form")
	if c.ws == nil {
		switch form {
		case "line":
			raw(line + "\r\n")
		case "two":
			raw(line + "\r\n" + line + "\r\n")
		case "split":
			raw(line[:len(line)/2])
			time.Sleep(3 * time.Millisecond)
			raw(line[len(line)/2:] + "\r")
			time.Sleep(time.Millisecond)
			raw("\n")
		case "lf":
			raw(line + "\n")
		case "blank":
			raw("\r\n\n" + line + "\r\n\r\n")
		case "bytes":
			for _, b := range []byte(line + "\r\n") {
				c.conn.Write([]byte{b})
			}
		}
		return nil
	}
	switch form {
	case "two":
		c.ws.frame(line)
		return c.ws.frame(line)
	case "lf":
		return c.ws.frame(line + "\r\n")
	case "split", "bytes":
		w, err := c.ws.ws.Writer(ctxBG, websocket.MessageText)
		if err != nil {
			return err
		}
		w.Write([]byte(line[:len(line)/2]))
		w.Write([]byte(line[len(line)/2:]))
		return w.Close()
	case "inject":
		c.ws.frame(line + "\r\nPRIVMSG #c :" + doorText["plain"])
		if !c.WaitClosed(3 * time.Second) {
			return nil
		}
		return nil
	}
	return c.ws.frame(line)
}

var doorChars = strings.NewReplacer("%t", "\t", "%b", "\u00a0", "%e", "\u00e9")

func (m *doors) run(stdin string, name string, args ...string) bool {
	exe, _ := os.Executable()
	cmd := exec.Command(exe+"."+name, append([]string{"-config", m.file("config")}, args...)...)
	cmd.Dir = m.w.Dir
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Stdout, cmd.Stderr = m.p.log, m.p.log
	cmd.SysProcAttr = procAttr()
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		fatal("%v: %v", name, err)
	}
	return err == nil
}

var doorStats = regexp.MustCompile(`(\d+) downstreams, (\d+) upstreams`)

func (m *doors) told() ([]interface{}, error) {
	return m.heard(0, func(l []*irc.Message) []interface{} {
		r := said(l, "NOTICE", "$")
		for i, t := range r {
			t := strings.TrimPrefix(t.(string), "other: ")
			r[i] = strings.NewReplacer("\t", "%t", "\u00a0", "%b", "\u00e9", "%e").Replace(t)
		}
		return r
	})
}

func (m *doors) Do(st Step) (interface{}, error) {
	res := make(map[string]interface{})
	var err error
	switch st.Str("op") {
	case "connect":
		err = m.connect(st, res)
	case "leave":
		c := m.cl[st.Int("i")]
		delete(m.cl, st.Int("i"))
		if st.Str("how") == "quit" {
			c.Send("QUIT :bye")
			if !c.WaitClosed(syncTimeout) {
				return nil, fmt.Errorf("not closed after QUIT")
			}
		}
		if c.ws != nil {
			c.ws.Close()
		} else {
			reset(c.conn)
		}
		res["done"] = true
	case "speak":
		i := st.Int("i")
		if err = m.speak(st); err != nil {
			return nil, err
		}
		if st.Str("form") == "inject" {
			if m.cl[i].Closed() {
				delete(m.cl, i)
			}
		}
		if c := m.cl[i]; c != nil {
			err = c.Sync()
		}
		if err != nil {
			return nil, err
		}
		nets := map[string]interface{}{}
		for n := range doorNets {
			l := []interface{}{}
			if m.up[n] {
				if err := m.last[n].Sync(); err != nil {
					return nil, err
				}
				l = said(m.last[n].Take(), "PRIVMSG", "#c")
			}
			nets[n] = l
		}
		res["net"] = nets
		res["cls"], err = m.heard(i, func(l []*irc.Message) []interface{} { return said(l, "PRIVMSG", "#c") })
		if c := m.cl[i]; c != nil {
			if l := said(c.Take(), "PRIVMSG", "#c"); len(l) > 0 {
				return nil, fmt.Errorf("the speaker got %v", l)
			}
		}
	case "hear":
		uc := m.last[st.Str("n")]
		io.WriteString(uc.conn, ":other!u@h PRIVMSG #c :"+doorText[st.Str("text")]+"\r\n")
		if err := uc.Sync(); err != nil {
			return nil, err
		}
		res["cls"], err = m.heard(0, func(l []*irc.Message) []interface{} { return said(l, "PRIVMSG", "#c") })
	case "flip":
		n := st.Str("n")
		r, err := m.serv(fmt.Sprintf("user run %s network update %s -enabled %v", doorOwner(n), n, st.Bool("on")))
		if err != nil {
			return nil, err
		}
		m.up[n] = st.Bool("on")
		if m.up[n] {
			if err := m.waitUp(n); err != nil {
				return nil, err
			}
		} else if err := m.srvs[doorNets[n]].WaitGone(m.last[n]); err != nil {
			return nil, err
		}
		res["done"] = r.ok
	case "ident":
		for deadline := time.Now().Add(2 * time.Second); ; time.Sleep(5 * time.Millisecond) {
			ans, err := m.askIdent(st)
			if err != nil {
				return nil, err
			}
			res["ans"] = ans
			if m.up[st.Str("n")] || fmt.Sprint(ans) == fmt.Sprint(st.Map("exp")["ans"]) || time.Now().After(deadline) {
				break // what is over is forgotten soon
			}
		}
	case "ctl":
		args := []string{"server", "notice", doorChars.Replace(st.Str("w"))}
		if st.Bool("bad") {
			args = []string{"user", "status", "nobody" + args[2]}
		}
		res["done"] = m.run("", "sojuctl", args...)
		res["cls"], err = m.told()
	case "serv":
		r, e := m.serv(st.Str("raw"))
		if e != nil {
			return nil, e
		}
		res["done"] = r.ok
		res["cls"], err = m.told()
	case "admindoor":
		c, e := net.Dial("unix", m.file("a.sock"))
		if e != nil {
			return nil, e
		}
		p := newPeer("admin", c, nil)
		p.Send(st.Str("line"))
		msg, e := p.WaitMsg(func(*irc.Message) bool { return true })
		if e != nil {
			return nil, e
		}
		res["ans"] = msg.Command
		if msg.Command == "ERROR" && !p.WaitClosed(syncTimeout) {
			res["ans"] = "not closed"
		}
		c.Close()
	case "reload":
		m.cfg = st.Map("cfg")
		m.p.config(m.config()...)
		m.p.cmd.Process.Signal(sigHUP)
		res["done"] = false
		for deadline := time.Now().Add(5 * time.Second); time.Now().Before(deadline); time.Sleep(time.Millisecond) {
			r, err := m.serv("server status")
			if err != nil {
				return nil, err
			}
			if r.server == m.cfg.Str("host") {
				res["done"] = true
				break
			}
		}
	case "badreload":
		good := m.config()
		l := append([]string{"hostname bad.example"}, good[1:]...)
		m.p.config(append(l, st.Str("line"))...)
		n := len(m.p.log.String())
		m.p.cmd.Process.Signal(sigHUP)
		for i := 0; i < 100 && !strings.Contains(m.p.log.String()[n:], "failed to"); i++ {
			time.Sleep(3 * time.Millisecond)
		}
		m.p.config(good...)
		r, err := m.serv("server status")
		if err != nil {
			return nil, err
		}
		res["server"] = r.server
	case "badstart":
		d := m.file("bs")
		os.MkdirAll(d, 0700)
		p := &sojuProc{dir: d, log: &logBuffer{}}
		l := []string{"hostname h.example", "db sqlite3 " + filepath.Join(d, "soju.db")}
		if !strings.HasPrefix(st.Str("line"), "listen ") {
			l = append(l, "listen irc+insecure://127.0.0.9:7001")
		}
		p.config(append(l, st.Str("line"))...)
		if err := p.launch(); err != nil {
			return nil, err
		}
		res["ended"], res["listens"] = "not", false
		select {
		case <-p.ended:
			res["ended"] = "without error"
			if !p.cmd.ProcessState.Success() {
				res["ended"] = "with an error"
			}
		case <-time.After(4 * time.Second):
			if c, err := net.Dial("tcp", "127.0.0.9:7001"); err == nil {
				c.Close()
				res["listens"] = true
			}
			p.stop(os.Kill)
		}
	case "restart":
		var sig os.Signal = sigTERM
		if st.Bool("kill") {
			sig = os.Kill
		}
		if err := m.p.stop(sig); err != nil {
			return nil, err
		}
		for i, c := range m.cl {
			if !c.WaitClosed(syncTimeout) {
				return nil, fmt.Errorf("client %v is not closed", i)
			}
			reset(c.conn)
			delete(m.cl, i)
		}
		for n, uc := range m.last {
			if m.up[n] {
				if err := m.srvs[doorNets[n]].WaitGone(uc); err != nil {
					return nil, err
				}
			}
		}
		res["done"] = true
		switch st.Str("db") {
		case "passwd":
			res["done"] = m.run(st.Str("pass")+"\n", "sojudb", "change-password", "bob")
		case "create":
			res["done"] = m.run("pw\n", "sojudb", "create-user", "carol")
		case "nobody":
			res["done"] = m.run("pw\n", "sojudb", "change-password", "nobody")
		case "empty":
			res["done"] = m.run("\n", "sojudb", "change-password", "bob")
		}
		err = m.start()
	default:
		return nil, fmt.Errorf("unknown step %q", st.Str("op"))
	}
	if err != nil {
		return nil, err
	}
	via := map[string]interface{}{}
	for n := range doorNets {
		via[n] = ""
		if m.up[n] {
			via[n] = m.via(n)
		}
	}
	res["via"] = via
	want := st.Map("exp").Map("stats")
	for deadline := time.Now().Add(3 * time.Second); ; time.Sleep(time.Millisecond) {
		r, err := m.serv("server status")
		if err != nil {
			return nil, err
		}
		var down, up int
		if l := doorStats.FindStringSubmatch(r.text); l != nil {
			fmt.Sscan(l[1], &down)
			fmt.Sscan(l[2], &up)
		}
		res["stats"] = map[string]interface{}{"down": down, "up": up}
		if down == want.Int("down") && up == want.Int("up") || time.Now().After(deadline) {
			break
		}
	}
	return res, nil
}

// via returns the range which a network's connection comes from.
func (m *doors) via(n string) string {
	a := m.last[n].conn.RemoteAddr().(*net.TCPAddr).IP.String()
	var r string
	switch {
	case strings.HasPrefix(a, "127.66."):
		r = "v4"
	case strings.HasPrefix(a, "127.67.3."):
		r = "both"
	default:
		return "any"
	}
	// An address is a user's, and stays so.
	owner := doorOwner(n)
	for i, u := range m.ips {
		if strings.HasPrefix(i, a[:6]) && (u == owner) != (i == a) {
			return fmt.Sprintf("%v, but %v is the address of %v", a, i, u)
		}
	}
	m.ips[a] = owner
	return r
}

func (m *doors) askIdent(st Step) ([]interface{}, error) {
	c, err := doorDialer(doorAddr[st.Str("s")]).Dial("tcp", net.JoinHostPort(m.last[st.Str("n")].conn.RemoteAddr().(*net.TCPAddr).IP.String(), "113"))
	if err != nil {
		return nil, err
	}
	defer reset(c)
	c.SetDeadline(time.Now().Add(syncTimeout))
	uc := m.last[st.Str("n")]
	lp := uc.conn.RemoteAddr().(*net.TCPAddr).Port
	var q []string
	switch st.Str("form") {
	case "right":
		q = []string{fmt.Sprintf("%d, 6667", lp)}
	case "spaces":
		q = []string{fmt.Sprintf("  %d ,6667 ", lp)}
	case "twice":
		q = []string{fmt.Sprintf("%d, 6667", lp), fmt.Sprintf("%d,6667", lp)}
	case "swapped":
		q = []string{fmt.Sprintf("6667, %d", lp)}
	case "port":
		q = []string{fmt.Sprintf("%d, 6668", lp)}
	case "junk":
		q = []string{st.Str("junk")}
	}
	br := bufio.NewReader(c)
	var res []interface{}
	for _, l := range q {
		if _, err := io.WriteString(c, l+"\r\n"); err != nil {
			break
		}
		a, err := br.ReadString('\n')
		if err != nil {
			if len(res) == 0 {
				return nil, err
			}
			break
		}
		parts := strings.Split(strings.TrimRight(a, "\r\n"), " : ")
		ports := func(s string) string { return strings.Join(strings.Fields(strings.ReplaceAll(s, ",", " , ")), "") }
		if ports(parts[0]) != ports(l) {
			res = append(res, "answer "+a)
		} else if len(parts) == 3 && parts[1] == "ERROR" {
			res = append(res, parts[2])
			break
		} else if len(parts) == 4 && parts[1] == "USERID" {
			id := parts[3]
			owner := doorOwner(st.Str("n"))
			if strings.Contains(id, owner) {
				return nil, fmt.Errorf("the ident %q shows who it is", id)
			}
			// An ident is a user's, and stays so.
			for i, u := range m.ident {
				if (u == owner) != (i == id) {
					res = append(res, fmt.Sprintf("%v is the ident of %v", i, u))
					return res, nil
				}
			}
			m.ident[id] = owner
			res = append(res, owner)
		} else {
			res = append(res, "answer "+a)
		}
	}
	return res, nil
}
