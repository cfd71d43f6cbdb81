// Package main binds the TLA+ specifications in /verif/spec to the real soju
// code: it replays behaviours generated by TLC into a real server (real
// sockets, real database, fake IRC networks) and compares what is observed
// with what the specification says must be observed.
package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

const syncTimeout = 12 * time.Second

var ctxBG = context.Background()

var tokenCounter int64

func newToken() string {
	return fmt.Sprintf("vsync-%d", atomic.AddInt64(&tokenCounter, 1))
}

// errNoAnswer is returned when the server doesn't answer within syncTimeout.
var errNoAnswer = errors.New("no answer from the server")

// Peer is one end of a line-based connection driven by the harness.
type Peer struct {
	name string
	conn net.Conn

	wmu sync.Mutex

	mu      sync.Mutex
	cond    *sync.Cond
	inbox   []*irc.Message // not yet taken
	total   int            // messages received, PONGs for our tokens excluded
	pongs   map[string]bool
	closed  bool
	onMsg   func(p *Peer, msg *irc.Message) // called from the reader goroutine
	lastRaw []string
}

func newPeer(name string, c net.Conn, onMsg func(p *Peer, msg *irc.Message)) *Peer {
	p := &Peer{name: name, conn: c, pongs: make(map[string]bool), onMsg: onMsg}
	p.cond = sync.NewCond(&p.mu)
	go p.readLoop()
	return p
}

func (p *Peer) readLoop() {
	br := bufio.NewReaderSize(p.conn, 65536)
	for {
		l, err := br.ReadString('\n')
		if err != nil {
			break
		}
		l = strings.TrimRight(l, "\r\n")
		if l == "" {
			continue
		}
		msg, err := irc.ParseMessage(l)
		if err != nil {
			msg = &irc.Message{Command: "UNPARSABLE", Params: []string{l}}
		}
		if msg.Prefix == nil {
			msg.Prefix = &irc.Prefix{}
		}
		if msg.Command == "PONG" && len(msg.Params) > 0 && strings.HasPrefix(msg.Params[len(msg.Params)-1], "vsync-") {
			p.mu.Lock()
			p.pongs[msg.Params[len(msg.Params)-1]] = true
			p.cond.Broadcast()
			p.mu.Unlock()
			continue
		}
		if p.onMsg != nil {
			p.onMsg(p, msg)
		}
		p.mu.Lock()
		p.inbox = append(p.inbox, msg)
		p.total++
		p.cond.Broadcast()
		p.mu.Unlock()
	}
	reset(p.conn)
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

// reset closes a connection at once. Nothing is left of it, where the peer has
// closed it or does not matter any more: a run opens so many connections that
// the ones in TIME_WAIT would use up the ports.
func reset(c net.Conn) {
	if tc, ok := c.(*net.TCPConn); ok {
		tc.SetLinger(0)
	}
	c.Close()
}

func (p *Peer) Sendf(format string, args ...interface{}) {
	p.Send(fmt.Sprintf(format, args...))
}

func (p *Peer) Send(lines ...string) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.conn.SetWriteDeadline(time.Now().Add(syncTimeout))
	var sb strings.Builder
	for _, l := range lines {
		sb.WriteString(l)
		sb.WriteString("\r\n")
	}
	io.WriteString(p.conn, sb.String())
}

func (p *Peer) Closed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closed
}

// wait waits until f returns true; f runs with the lock held.
func (p *Peer) wait(timeout time.Duration, f func() bool) bool {
	deadline := time.Now().Add(timeout)
	t := time.AfterFunc(timeout, func() {
		p.mu.Lock()
		p.cond.Broadcast()
		p.mu.Unlock()
	})
	defer t.Stop()
	p.mu.Lock()
	defer p.mu.Unlock()
	for !f() {
		if time.Now().After(deadline) {
			return false
		}
		p.cond.Wait()
	}
	return true
}

func (p *Peer) WaitClosed(timeout time.Duration) bool {
	return p.wait(timeout, func() bool { return p.closed })
}

// Sync performs a PING/PONG round trip. A closed connection is not an error.
func (p *Peer) Sync() error {
	if p.Closed() {
		return nil
	}
	tok := newToken()
	p.Send("PING " + tok)
	if !p.wait(syncTimeout, func() bool { return p.pongs[tok] || p.closed }) {
		return fmt.Errorf("%v: %w", p.name, errNoAnswer)
	}
	p.mu.Lock()
	delete(p.pongs, tok)
	p.mu.Unlock()
	return nil
}

// Take returns and removes the messages received so far.
func (p *Peer) Take() []*irc.Message {
	p.mu.Lock()
	defer p.mu.Unlock()
	l := p.inbox
	p.inbox = nil
	return l
}

func (p *Peer) Total() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.total
}

// WaitMsg waits until a message matching f is in the inbox (not removed).
func (p *Peer) WaitMsg(f func(msg *irc.Message) bool) (*irc.Message, error) {
	var found *irc.Message
	ok := p.wait(syncTimeout, func() bool {
		for _, m := range p.inbox {
			if f(m) {
				found = m
				return true
			}
		}
		return p.closed
	})
	if !ok {
		return nil, fmt.Errorf("%v: %w", p.name, errNoAnswer)
	}
	if found == nil {
		return nil, fmt.Errorf("%v: connection closed", p.name)
	}
	return found, nil
}

// FakeNet is a fake upstream IRC network.
type FakeNet struct {
	Name string
	Addr string // URL stored in the database
	ln   net.Listener

	mu      sync.Mutex
	cond    *sync.Cond
	conn    *UpConn   // latest connection
	conns   []*UpConn // all connections so far
	nConns  int
	nClosed int
	dead    bool

	Hold     bool // when set, new connections aren't registered automatically
	Caps     []string
	ISupport []string
	Handler  func(uc *UpConn, msg *irc.Message) bool // true: handled
	Welcome  func(uc *UpConn) []string               // extra lines after 001/005, before end of MOTD
	Names    func(ch string) []string                // NAMES on join, besides our nick
	Host     string
}

// UpConn is one connection from soju to a fake network.
type UpConn struct {
	*Peer
	net        *FakeNet
	Nick       string
	User       string
	Realname   string
	Pass       string
	gotUser    bool
	capLS      bool
	capEnd     bool
	Registered bool
	welcoming  bool // the welcome is being sent
	Caps       map[string]bool
	regLog     []*irc.Message
}

func NewFakeNet(name string) *FakeNet {
	return newFakeNetOn(name, func(ln net.Listener) net.Listener { return ln })
}

// newFakeNetOn is NewFakeNet with a listener of its own making.
func newFakeNetOn(name string, wrap func(net.Listener) net.Listener) *FakeNet {
	n := &FakeNet{Name: name, Host: "up.example"}
	n.cond = sync.NewCond(&n.mu)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal("failed to listen: %v", err)
	}
	n.ln = wrap(ln)
	n.Addr = "irc+insecure://" + ln.Addr().String()
	go n.acceptLoop()
	return n
}

// NewUnixNet is NewFakeNet on a Unix socket.
func NewUnixNet(name, path string) *FakeNet {
	n := &FakeNet{Name: name, Host: "up.example"}
	n.cond = sync.NewCond(&n.mu)
	ln, err := net.Listen("unix", path)
	if err != nil {
		fatal("failed to listen: %v", err)
	}
	n.ln = ln
	n.Addr = "unix://" + path
	go n.acceptLoop()
	return n
}

// Live returns the open connections, in the order they were made.
func (n *FakeNet) Live() []*UpConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	var l []*UpConn
	for _, uc := range n.conns {
		if !uc.Closed() {
			l = append(l, uc)
		}
	}
	return l
}

func (uc *UpConn) isRegistered() bool {
	uc.net.mu.Lock()
	defer uc.net.mu.Unlock()
	return uc.Registered
}

// isWelcomed reports whether messages received now may follow the welcome.
func (uc *UpConn) isWelcomed() bool {
	uc.net.mu.Lock()
	defer uc.net.mu.Unlock()
	return uc.welcoming
}

func (n *FakeNet) acceptLoop() {
	for {
		c, err := n.ln.Accept()
		if err != nil {
			return
		}
		uc := &UpConn{net: n, Caps: make(map[string]bool)}
		n.mu.Lock()
		dead := n.dead
		n.mu.Unlock()
		if dead {
			c.Close()
			continue
		}
		uc.Peer = &Peer{name: "net " + n.Name, conn: c, pongs: make(map[string]bool)}
		uc.Peer.cond = sync.NewCond(&uc.Peer.mu)
		uc.Peer.onMsg = uc.handle
		n.mu.Lock()
		n.conn = uc
		n.conns = append(n.conns, uc)
		n.nConns++
		n.cond.Broadcast()
		n.mu.Unlock()
		go func() {
			uc.Peer.readLoop()
			n.mu.Lock()
			n.nClosed++
			n.cond.Broadcast()
			n.mu.Unlock()
		}()
	}
}

func (n *FakeNet) Close() {
	n.mu.Lock()
	n.dead = true
	l := n.conns
	n.mu.Unlock()
	for _, uc := range l {
		reset(uc.conn)
	}
}

func (n *FakeNet) waitFor(timeout time.Duration, f func() bool) bool {
	deadline := time.Now().Add(timeout)
	t := time.AfterFunc(timeout, func() {
		n.mu.Lock()
		n.cond.Broadcast()
		n.mu.Unlock()
	})
	defer t.Stop()
	n.mu.Lock()
	defer n.mu.Unlock()
	for !f() {
		if time.Now().After(deadline) {
			return false
		}
		n.cond.Wait()
	}
	return true
}

// Cur returns the current connection, or nil.
func (n *FakeNet) Cur() *UpConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.conn != nil && n.conn.Closed() {
		return nil
	}
	return n.conn
}

// Up returns the current registered connection, or nil.
func (n *FakeNet) Up() *UpConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.conn != nil && n.conn.Registered && !n.conn.Closed() {
		return n.conn
	}
	return nil
}

func (n *FakeNet) NumConns() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.nConns
}

// WaitConn waits for a live connection beyond the first `after` ones.
func (n *FakeNet) WaitConn(after int) (*UpConn, error) {
	if !n.waitFor(syncTimeout, func() bool { return n.nConns > after && n.conn != nil && !n.conn.Closed() }) {
		return nil, fmt.Errorf("net %v: no connection: %w", n.Name, errNoAnswer)
	}
	return n.conn, nil
}

func (n *FakeNet) WaitUp() (*UpConn, error) {
	if !n.waitFor(syncTimeout, func() bool { return n.conn != nil && n.conn.Registered && !n.conn.Closed() }) {
		return nil, fmt.Errorf("net %v: not registered: %w", n.Name, errNoAnswer)
	}
	uc := n.Up()
	if uc == nil {
		return nil, fmt.Errorf("net %v: connection lost", n.Name)
	}
	return uc, nil
}

// WaitReady waits until soju has sent its complete registration on a held
// connection (NICK, USER and, when capabilities were offered, CAP END).
func (n *FakeNet) WaitReady(after int) (*UpConn, error) {
	if !n.waitFor(syncTimeout, func() bool {
		return n.nConns > after && n.conn != nil && !n.conn.Closed() && n.conn.ready()
	}) {
		return nil, fmt.Errorf("net %v: registration incomplete: %w", n.Name, errNoAnswer)
	}
	return n.conn, nil
}

// WaitGone waits until the given connection is closed by soju.
func (n *FakeNet) WaitGone(uc *UpConn) error {
	if !uc.WaitClosed(syncTimeout) {
		return fmt.Errorf("net %v: connection still open: %w", n.Name, errNoAnswer)
	}
	return nil
}

func (uc *UpConn) ready() bool {
	return uc.Nick != "" && uc.gotUser && (!uc.capLS || uc.capEnd)
}

func (uc *UpConn) prefix() string {
	return fmt.Sprintf("%s!u@%s", uc.Nick, "me.example")
}

func (uc *UpConn) handle(p *Peer, msg *irc.Message) {
	n := uc.net
	n.mu.Lock()
	if !uc.welcoming {
		uc.regLog = append(uc.regLog, msg)
	}
	n.mu.Unlock()
	if n.Handler != nil && n.Handler(uc, msg) {
		n.mu.Lock()
		n.cond.Broadcast()
		n.mu.Unlock()
		return
	}
	get := func(i int) string {
		if i < len(msg.Params) {
			return msg.Params[i]
		}
		return ""
	}
	switch strings.ToUpper(msg.Command) {
	case "PING":
		p.Send(fmt.Sprintf(":%s PONG %s :%s", n.Host, n.Host, get(0)))
	case "CAP":
		nick := uc.Nick
		if nick == "" {
			nick = "*"
		}
		switch strings.ToUpper(get(0)) {
		case "LS":
			if n.Caps == nil {
				p.Sendf(":%s 421 %s CAP :Unknown command", n.Host, nick)
			} else {
				uc.capLS = true
				p.Sendf(":%s CAP %s LS :%s", n.Host, nick, strings.Join(n.Caps, " "))
			}
		case "REQ":
			for _, c := range strings.Fields(get(1)) {
				if strings.HasPrefix(c, "-") {
					delete(uc.Caps, c[1:])
				} else {
					uc.Caps[c] = true
				}
			}
			p.Sendf(":%s CAP %s ACK :%s", n.Host, nick, get(1))
		case "END":
			n.mu.Lock()
			uc.capEnd = true
			n.mu.Unlock()
			uc.maybeWelcome()
		}
	case "PASS":
		uc.Pass = get(0)
	case "NICK":
		if uc.isWelcomed() {
			old := uc.prefix()
			uc.Nick = get(0)
			p.Sendf(":%s NICK :%s", old, get(0))
			break
		}
		n.mu.Lock()
		uc.Nick = get(0)
		n.mu.Unlock()
		uc.maybeWelcome()
	case "USER":
		n.mu.Lock()
		uc.User, uc.Realname, uc.gotUser = get(0), get(3), true
		n.mu.Unlock()
		uc.maybeWelcome()
	case "JOIN":
		for _, ch := range strings.Split(get(0), ",") {
			uc.SendJoin(ch)
		}
	case "PART":
		for _, ch := range strings.Split(get(0), ",") {
			p.Sendf(":%s PART %s", uc.prefix(), ch)
		}
	case "MODE":
		if len(msg.Params) == 1 && isChan(get(0)) {
			p.Sendf(":%s 324 %s %s +nt", n.Host, uc.Nick, get(0))
		}
	case "AWAY":
		if get(0) == "" {
			p.Sendf(":%s 305 %s :You are no longer marked as being away", n.Host, uc.Nick)
		} else {
			p.Sendf(":%s 306 %s :You have been marked as being away", n.Host, uc.Nick)
		}
	}
	n.mu.Lock()
	n.cond.Broadcast()
	n.mu.Unlock()
}

// SendJoin confirms a JOIN to soju, with the NAMES reply.
func (uc *UpConn) SendJoin(ch string) {
	n := uc.net
	names := []string{uc.Nick}
	if n.Names != nil {
		names = append(names, n.Names(ch)...)
	}
	uc.Send(
		fmt.Sprintf(":%s JOIN %s", uc.prefix(), ch),
		fmt.Sprintf(":%s 353 %s = %s :%s", n.Host, uc.Nick, ch, strings.Join(names, " ")),
		fmt.Sprintf(":%s 366 %s %s :End of /NAMES list", n.Host, uc.Nick, ch),
	)
}

func (uc *UpConn) maybeWelcome() {
	n := uc.net
	n.mu.Lock()
	ok := !uc.Registered && uc.ready() && !n.Hold
	n.mu.Unlock()
	if ok {
		uc.SendWelcome()
	}
}

// SendWelcome completes the registration of a connection.
func (uc *UpConn) SendWelcome() {
	n := uc.net
	lines := []string{
		fmt.Sprintf(":%s 001 %s :Welcome", n.Host, uc.Nick),
		fmt.Sprintf(":%s 002 %s :Your host", n.Host, uc.Nick),
		fmt.Sprintf(":%s 003 %s :Created", n.Host, uc.Nick),
		fmt.Sprintf(":%s 004 %s %s v1 iow imnst", n.Host, uc.Nick, n.Host),
		fmt.Sprintf(":%s 005 %s soju.im/SAFERATE %s:are supported", n.Host, uc.Nick, joinSp(n.ISupport)),
	}
	if n.Welcome != nil {
		lines = append(lines, n.Welcome(uc)...)
	}
	lines = append(lines, fmt.Sprintf(":%s 422 %s :No MOTD", n.Host, uc.Nick))
	n.mu.Lock()
	uc.welcoming = true
	n.mu.Unlock()
	uc.Send(lines...)
	n.mu.Lock()
	uc.Registered = true
	n.cond.Broadcast()
	n.mu.Unlock()
}

func joinSp(l []string) string {
	s := ""
	for _, v := range l {
		s += v + " "
	}
	return s
}

func isChan(s string) bool {
	return strings.HasPrefix(s, "#") || strings.HasPrefix(s, "&")
}

// openAuth accepts a fixed password for every user of the database. It spares
// the cost of bcrypt in checks that aren't about authentication.
type openAuth struct{}

func (openAuth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
	if password != "pw" {
		return &auth.Error{InternalErr: fmt.Errorf("bad password"), ExternalMsg: "bad password"}
	}
	return nil
}

// World is a running soju server, its networks and its clients.
type World struct {
	Dir     string
	DBPath  string
	DB      database.Database
	Srv     *soju.Server
	Cfg     soju.Config
	ln      net.Listener
	adminLn net.Listener

	Nets    map[string]*FakeNet
	Clients map[string]*Peer
	logBuf  *logBuffer
	nAlive  int
	running bool
}

type logBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (l *logBuffer) Write(p []byte) (int, error) {
	if bytes.Contains(p, []byte("vsync-")) {
		return len(p), nil // our own round trips
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) > 1<<20 {
		l.b = append([]byte(nil), l.b[len(l.b)/2:]...)
	}
	l.b = append(l.b, p...)
	return len(p), nil
}

func (l *logBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b)
}

var scratchRoot string

// NewWorld creates a world with an on-disk database in a scratch directory.
func NewWorld() *World {
	dir, err := os.MkdirTemp(scratchRoot, "w")
	if err != nil {
		fatal("failed to create scratch directory: %v", err)
	}
	w := &World{
		Dir:     dir,
		DBPath:  filepath.Join(dir, "soju.db"),
		Nets:    make(map[string]*FakeNet),
		Clients: make(map[string]*Peer),
		logBuf:  &logBuffer{},
	}
	w.Cfg = soju.Config{
		Hostname:        "bouncer.example",
		MsgStoreDriver:  "memory",
		MaxUserNetworks: -1,
		Auth:            &auth.Authenticator{Plain: openAuth{}},
		HTTPIngress:     "https://bouncer.example",
	}
	w.OpenDB()
	return w
}

func (w *World) OpenDB() {
	db, err := database.OpenSqliteDB(w.DBPath)
	if err != nil {
		fatal("failed to open database: %v", err)
	}
	w.DB = db
}

// AddUser stores a user; the password is "pw" under openAuth.
func (w *World) AddUser(name string, admin bool) *database.User {
	u := database.NewUser(name)
	u.Admin = admin
	if err := w.DB.StoreUser(context.Background(), u); err != nil {
		fatal("failed to store user: %v", err)
	}
	return u
}

func (w *World) AddNet(u *database.User, n *FakeNet, name string) *database.Network {
	rec := database.NewNetwork(n.Addr)
	rec.Name = name
	if err := w.DB.StoreNetwork(context.Background(), u.ID, rec); err != nil {
		fatal("failed to store network: %v", err)
	}
	w.Nets[n.Name] = n
	return rec
}

// Start starts the server on the current database.
func (w *World) Start() {
	w.Srv = soju.NewServer(w.DB)
	cfg := w.Cfg
	w.Srv.SetConfig(&cfg)
	w.Srv.Logger = soju.NewLogger(w.logBuf, true)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal("failed to listen: %v", err)
	}
	w.ln = ln
	go w.Srv.Serve(ln, w.Srv.Handle)
	aln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal("failed to listen: %v", err)
	}
	w.adminLn = aln
	go w.Srv.Serve(aln, w.Srv.HandleAdmin)
	if err := w.Srv.Start(); err != nil {
		fatal("failed to start server: %v", err)
	}
	w.running = true
	w.nAlive = 0
	// Serve registers its listener in its own goroutine: wait until both
	// listeners answer, so that a later Shutdown is sure to know them.
	for _, a := range []net.Addr{ln.Addr(), aln.Addr()} {
		c, err := net.Dial("tcp", a.String())
		if err != nil {
			fatal("failed to dial server: %v", err)
		}
		io.WriteString(c, "CAP LS\r\n")
		c.SetReadDeadline(time.Now().Add(syncTimeout))
		c.Read(make([]byte, 1))
		reset(c)
	}
	w.WaitDownstreams()
}

// Shutdown stops the server gracefully. It reports whether the server
// completed its shutdown in time.
func (w *World) Shutdown() bool {
	if !w.running {
		return true
	}
	w.running = false
	done := make(chan struct{})
	go func() {
		w.Srv.Shutdown()
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-time.After(syncTimeout):
		buf := make([]byte, 1<<18)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(w.logBuf, "shutdown did not complete; goroutines:\n%s\n", buf[:n])
		if os.Getenv("VERIF_STACKS") != "" {
			os.Stderr.Write(buf[:n])
		}
		return false
	}
}

// Restart performs a graceful restart on the same database.
func (w *World) Restart() error {
	if !w.Shutdown() {
		return fmt.Errorf("shutdown: %w", errNoAnswer)
	}
	for name, c := range w.Clients {
		c.conn.Close()
		delete(w.Clients, name)
	}
	for _, n := range w.Nets {
		for _, uc := range n.Live() {
			if err := n.WaitGone(uc); err != nil {
				return err
			}
		}
	}
	w.OpenDB()
	w.Start()
	return nil
}

// Crash restarts the server from a copy of its files as they are on disk, as
// after a kill: nothing is flushed or handed over.
func (w *World) Crash() error {
	dir, err := os.MkdirTemp(scratchRoot, "w")
	if err != nil {
		fatal("failed to create scratch directory: %v", err)
	}
	if err := copyDir(w.Dir, dir); err != nil {
		fatal("failed to copy scratch directory: %v", err)
	}
	oldDir := w.Dir
	if !w.Shutdown() {
		return fmt.Errorf("shutdown: %w", errNoAnswer)
	}
	for name, c := range w.Clients {
		c.conn.Close()
		delete(w.Clients, name)
	}
	for _, n := range w.Nets {
		for _, uc := range n.Live() {
			if err := n.WaitGone(uc); err != nil {
				return err
			}
		}
	}
	removeAll(oldDir)
	w.DBPath = strings.Replace(w.DBPath, oldDir, dir, 1)
	w.Cfg.MsgStorePath = strings.Replace(w.Cfg.MsgStorePath, oldDir, dir, 1)
	w.Dir = dir
	w.OpenDB()
	w.Start()
	return nil
}

func copyDir(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(src, p)
		if err != nil {
			return err
		}
		out := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(out, 0700)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(out, b, 0600)
	})
}

// removeAll removes a directory, which must lie in the scratch root.
func removeAll(dir string) {
	if scratchRoot == "" || !strings.HasPrefix(dir, scratchRoot+"/") {
		fatal("refusing to remove %q", dir)
	}
	os.RemoveAll(dir)
}

// Destroy stops everything and removes the scratch directory.
func (w *World) Destroy() {
	for _, c := range w.Clients {
		reset(c.conn)
	}
	for _, n := range w.Nets {
		n.Close()
	}
	done := make(chan struct{})
	go func() {
		w.Shutdown()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
	}
	// Only now, since another process may be given the same ports.
	for _, n := range w.Nets {
		n.ln.Close()
	}
	removeAll(w.Dir)
}

// Dial opens a raw client connection.
func (w *World) Dial(name string) *Peer {
	c, err := net.Dial("tcp", w.ln.Addr().String())
	if err != nil {
		fatal("failed to dial server: %v", err)
	}
	p := newPeer("client "+name, c, nil)
	w.Clients[name] = p
	return p
}

func (w *World) DialAdmin() *Peer {
	c, err := net.Dial("tcp", w.adminLn.Addr().String())
	if err != nil {
		fatal("failed to dial admin socket: %v", err)
	}
	return newPeer("admin", c, nil)
}

type Login struct {
	Key      string // name in Clients
	User     string
	Net      string
	Client   string
	Nick     string
	Caps     []string
	Pass     string
	Realname string
	Pre      []string // further lines before the end of the registration
}

// Connect registers a client and waits until the welcome is complete.
func (w *World) Connect(l Login) (*Peer, error) {
	p := w.Dial(l.Key)
	username := l.User
	if l.Net != "" {
		username += "/" + l.Net
	}
	if l.Client != "" {
		username += "@" + l.Client
	}
	nick := l.Nick
	if nick == "" {
		nick = l.User
	}
	pass := l.Pass
	if pass == "" {
		pass = "pw"
	}
	realname := l.Realname
	if realname == "" {
		realname = "Real Name"
	}
	var lines []string
	if l.Caps != nil {
		lines = append(lines, "CAP LS 302")
		for _, c := range l.Caps {
			lines = append(lines, "CAP REQ :"+c)
		}
	}
	lines = append(lines, "PASS "+pass, "NICK "+nick, fmt.Sprintf("USER %s 0 * :%s", username, realname))
	lines = append(lines, l.Pre...)
	if l.Caps != nil {
		lines = append(lines, "CAP END")
	}
	p.Send(lines...)
	_, err := p.WaitMsg(func(m *irc.Message) bool { return m.Command == "001" || m.Command == "ERROR" })
	if err != nil {
		return p, err
	}
	w.nAlive++
	return p, p.Sync()
}

// Disconnect closes a client and waits for the server to notice.
func (w *World) Disconnect(key string) error {
	p := w.Clients[key]
	if p == nil {
		return nil
	}
	delete(w.Clients, key)
	p.conn.Close()
	p.WaitClosed(syncTimeout)
	w.nAlive--
	return w.WaitDownstreams()
}

// WaitDownstreams waits until the number of connections the server handles is
// the number of clients alive.
func (w *World) WaitDownstreams() error {
	deadline := time.Now().Add(3 * time.Second)
	for {
		alive := 0
		for _, c := range w.Clients {
			if !c.Closed() {
				alive++
			}
		}
		if int(w.Srv.Stats().Downstreams) <= alive {
			return nil
		}
		if time.Now().After(deadline) {
			time.Sleep(200 * time.Millisecond)
			return nil
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// Sync waits until the world is quiet: every message sent so far has been
// processed and its consequences have been received.
func (w *World) Sync() error {
	prev := -1
	for i := 0; i < 40; i++ {
		keys := make([]string, 0, len(w.Clients))
		for k := range w.Clients {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		total := 0
		for _, k := range keys {
			if err := w.Clients[k].Sync(); err != nil {
				return err
			}
		}
		for _, n := range w.Nets {
			for _, uc := range n.Live() {
				if !uc.isRegistered() {
					continue
				}
				if err := uc.Sync(); err != nil {
					return err
				}
			}
		}
		for _, k := range keys {
			if err := w.Clients[k].Sync(); err != nil {
				return err
			}
		}
		for _, k := range keys {
			c := w.Clients[k]
			total += c.Total()
			if c.Closed() {
				total += 100000
			}
		}
		for _, n := range w.Nets {
			for _, uc := range n.Live() {
				total += uc.Total()
			}
		}
		if total == prev {
			return nil
		}
		prev = total
	}
	return nil
}

// NetDown drops the connection to a network, and holds back the next one.
func (w *World) NetDown(n *FakeNet) error {
	n.mu.Lock()
	n.Hold = true
	n.mu.Unlock()
	k := n.NumConns()
	if uc := n.Cur(); uc != nil {
		uc.conn.Close()
	}
	_, err := n.WaitReady(k)
	return err
}

// NetUp completes the registration of a connection held back.
func (w *World) NetUp(n *FakeNet) {
	n.mu.Lock()
	n.Hold = false
	n.mu.Unlock()
	n.Cur().SendWelcome()
}

func param(msg *irc.Message, i int) string {
	if i < len(msg.Params) {
		return msg.Params[i]
	}
	return ""
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}
