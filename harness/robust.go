package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// robust replays Robust.tla: arbitrary lines from clients and networks. What
// is observed is the list of everything and everyone harmed by them.
type robust struct {
	w     *World
	fs    bool
	n     int
	ups   map[string]*UpConn
	sizes map[string]int64 // of bob's logs
	login map[string]Login
}

func init() {
	modules["robust"] = func(init Step) (Module, error) {
		m := &robust{w: NewWorld(), sizes: make(map[string]int64), ups: make(map[string]*UpConn), login: make(map[string]Login)}
		w := m.w
		switch init.Str("store") {
		case "fs":
			w.Cfg.MsgStoreDriver, w.Cfg.MsgStorePath = "fs", filepath.Join(w.Dir, "logs")
			m.fs = true
		case "db":
			w.Cfg.MsgStoreDriver = "db"
		}
		// The small network numbers belong to somebody else.
		zed := w.AddUser("zed", false)
		for i := 0; i < 3; i++ {
			rec := database.NewNetwork("irc+insecure://127.0.0.1:9")
			rec.Enabled = false
			rec.Name = fmt.Sprintf("z%d", i)
			if err := w.DB.StoreNetwork(ctxBG, zed.ID, rec); err != nil {
				fatal("failed to store network: %v", err)
			}
		}
		alice, bob := w.AddUser("alice", true), w.AddUser("bob", true)
		for _, name := range []string{"n1", "n2", "nb"} {
			n := NewFakeNet(name)
			n.Caps = []string{"message-tags", "server-time", "batch", "labeled-response", "away-notify", "account-notify", "account-tag", "extended-join", "multi-prefix", "setname", "chghost", "invite-notify", "extended-monitor", "cap-notify", "echo-message", "draft/account-registration", "sasl=PLAIN,EXTERNAL"}
			n.ISupport = []string{"WHOX", "MONITOR=5", "PREFIX=(ov)@+", "CHANMODES=beI,k,l,imnst", "NETWORK=x", "STATUSMSG=@+", "CHANTYPES=#&"}
			n.Handler = robustAuth
			n.Names = func(ch string) []string { return []string{"@bob", "+carol"} }
			w.Nets[name] = n
			u := alice
			if name == "nb" {
				u = bob
			}
			rec := w.AddNet(u, n, name)
			rec.Nick, rec.Username, rec.Realname = u.Username, "u", "Real Name"
			if err := w.DB.StoreNetwork(ctxBG, u.ID, rec); err != nil {
				fatal("failed to store network: %v", err)
			}
			for _, ch := range []string{"#c", "#d"} {
				if err := w.DB.StoreChannel(ctxBG, rec.ID, &database.Channel{Name: ch}); err != nil {
					fatal("failed to store channel: %v", err)
				}
			}
		}
		w.Start()
		for _, n := range w.Nets {
			uc, err := n.WaitUp()
			if err != nil {
				return m, err
			}
			m.ups[n.Name] = uc
		}
		caps := []string{"message-tags", "server-time", "batch", "labeled-response", "away-notify", "account-notify", "extended-join", "multi-prefix", "setname", "chghost", "invite-notify", "extended-monitor", "echo-message", "cap-notify", "draft/account-registration", "draft/chathistory", "draft/read-marker", "soju.im/search", "soju.im/bouncer-networks"}
		m.login["a1"] = Login{Key: "a1", User: "alice", Net: "n1", Client: "one", Caps: caps}
		m.login["a2"] = Login{Key: "a2", User: "alice", Net: "n1", Client: "two"}
		m.login["a3"] = Login{Key: "a3", User: "alice", Client: "three", Caps: caps}
		m.login["a4"] = Login{Key: "a4", User: "alice", Net: "n2", Client: "four"}
		m.login["b1"] = Login{Key: "b1", User: "bob", Net: "nb", Client: "five"}
		for _, c := range []string{"a1", "a2", "a3", "a4", "b1"} {
			if _, err := w.Connect(m.login[c]); err != nil {
				return m, err
			}
		}
		err := w.Sync()
		if m.fs {
			m.files(true)
		}
		return m, err
	}
}

func robustAuth(uc *UpConn, msg *irc.Message) bool {
	if msg.Command != "AUTHENTICATE" {
		return false
	}
	switch param(msg, 0) {
	case "PLAIN", "EXTERNAL", "ANONYMOUS", "OAUTHBEARER":
		uc.Send("AUTHENTICATE +")
	case "*":
		uc.Sendf(":%s 906 %s :Aborted", uc.net.Host, uc.Nick)
	default:
		uc.Sendf(":%s 903 %s :Logged in", uc.net.Host, uc.Nick)
	}
	return true
}

func (m *robust) ServerLog() string { return m.w.logBuf.String() }
func (m *robust) Close()            { m.w.Destroy() }

var robustWords = map[string]string{
	"LONG":   strings.Repeat("l", 420),
	"CTRL":   "\x01ACTION \x02a\x03\x1f\x16 b\x01",
	"UTF":    "é☃𝄞\u200b",
	"BADUTF": "\xff\xfe\xc3",
}

func robustLine(v interface{}) string {
	s := Step(v.(map[string]interface{}))
	if raw := s.Str("raw"); raw != "~" {
		switch raw {
		case "NUL":
			return "PING \x00x\x00"
		case "HUGE":
			return "PRIVMSG #c :" + strings.Repeat("h", 5000)
		case "HUGETAGS":
			return "@a=" + strings.Repeat("t", 8000) + " PRIVMSG #c :x"
		case "MANYPARAMS":
			return "PRIVMSG" + strings.Repeat(" p", 100)
		}
		return strings.ReplaceAll(raw, "LONGPREFIX", strings.Repeat("p", 400))
	}
	var sb strings.Builder
	if t := s.Str("t"); t != "" {
		sb.WriteString("@" + t + " ")
	}
	if p := s.Str("p"); p != "-" {
		sb.WriteString(":" + p + " ")
	}
	words := s.Strs("m")
	if words[0] == "SVC" {
		for i, word := range words[1:] {
			if word == "" {
				words[i+1] = "''"
			}
		}
		words = []string{"PRIVMSG", "BouncerServ", strings.Join(words[1:], " ")}
	}
	for i, word := range words {
		if r, ok := robustWords[word]; ok {
			word = r
		}
		switch {
		case i == 0:
			sb.WriteString(word)
		case i == len(words)-1 && (word == "" || word[0] == ':' || strings.Contains(word, " ") || len(word)%2 == 0):
			sb.WriteString(" :" + word)
		default:
			// An empty or broken word in the middle shifts the rest.
			sb.WriteString(" " + word)
		}
	}
	return sb.String()
}

func (m *robust) lines(st Step, k int) []string {
	var l []string
	for _, v := range st.List("lines") {
		l = append(l, robustLine(v))
	}
	return l
}

func (m *robust) Do(st Step) (interface{}, error) {
	w := m.w
	m.n++
	sender := ""
	n1 := w.Nets["n1"]
	if m.n%5 == 0 {
		w.Clients["a2"].Send("JOIN #c", "JOIN #d")
		w.Clients["a2"].Sync()
		m.ups["n1"].Sync()
	}
	lines := m.lines(st, 0)
	switch st.Str("op") {
	case "net":
		sender = "n1"
		m.ups["n1"].Send(lines...)
		m.ups["n1"].Sync()
	case "register":
		sender = "n1"
		n1.mu.Lock()
		k := n1.nConns
		n1.Hold = true
		n1.mu.Unlock()
		sent := 0
		ls := make(chan struct{})
		n1.Handler = func(uc *UpConn, msg *irc.Message) bool {
			if msg.Command == "CAP" && param(msg, 0) == "LS" {
				select {
				case <-ls:
				default:
					close(ls)
				}
				return true
			}
			return robustAuth(uc, msg)
		}
		if err := m.again(); err != nil {
			return nil, err
		}
		uc, err := n1.WaitConn(k)
		if err != nil {
			return nil, err
		}
		m.ups["n1"] = uc
		uc.wait(syncTimeout, func() bool {
			select {
			case <-ls:
				return true
			default:
				return uc.closed
			}
		})
		n1.Handler = robustAuth
		sent = st.Int("k")
		if sent > len(lines) {
			sent = len(lines)
		}
		uc.Send(lines[:sent]...)
		uc.capLS = true
		uc.Sendf(":%s CAP * LS :%s", n1.Host, strings.Join(n1.Caps, " "))
		n1.waitFor(3*time.Second, func() bool { return uc.ready() || uc.Closed() })
		uc.Send(lines[sent:]...)
		n1.mu.Lock()
		n1.Hold = false
		n1.mu.Unlock()
		uc.SendWelcome()
		tok := newToken()
		uc.Send("PING " + tok)
		if !uc.wait(3*time.Second, func() bool { return uc.pongs[tok] || uc.closed }) {
			reset(uc.conn)
		}
	case "client":
		sender = st.Str("c")
		p := w.Clients[sender]
		p.Send(lines...)
		p.Sync()
	case "burst":
		sender = st.Str("c")
		p := w.Clients[sender]
		io.WriteString(p.conn, strings.Repeat(lines[0]+"\r\n", st.Int("k")))
		p.Sync()
	case "netburst":
		sender = "n1"
		io.WriteString(m.ups["n1"].conn, strings.Repeat(lines[0]+"\r\n", st.Int("k")))
		m.ups["n1"].Sync()
	case "duel":
		a, b := w.Clients["a3"], w.Clients["b1"]
		a.Take()
		b.Take()
		a.Send("PRIVMSG BouncerServ :user update bob -max-networks 7")
		b.Send("PRIVMSG BouncerServ :user update alice -max-networks 7")
		// At worst, they wait for each other for a while.
		for _, p := range []*Peer{a, b} {
			p.wait(25*time.Second, func() bool {
				for _, msg := range p.inbox {
					if msg.Prefix != nil && msg.Prefix.Name == "BouncerServ" && msg.Command == "PRIVMSG" {
						return true
					}
				}
				return p.closed
			})
		}
	case "stranger":
		p := w.Dial("x")
		p.Send(lines...)
		tok := newToken()
		p.Send("CAP " + tok)
		p.wait(3*time.Second, func() bool {
			for _, msg := range p.inbox {
				for _, v := range msg.Params {
					if strings.EqualFold(v, tok) {
						return true
					}
				}
			}
			return p.closed
		})
		p.conn.Close()
		p.WaitClosed(syncTimeout)
		delete(w.Clients, "x")
	default:
		return nil, fmt.Errorf("unknown step %q", st.Str("op"))
	}
	return m.check(sender)
}

// again has the network n1 connected to again.
func (m *robust) again() error {
	p := m.w.Clients["a3"]
	p.Take()
	p.Sendf("PRIVMSG BouncerServ :network update n1 -realname R%d", m.n)
	_, err := p.WaitMsg(func(msg *irc.Message) bool {
		return msg.Prefix.Name == "BouncerServ" && msg.Command == "PRIVMSG"
	})
	return err
}

func (m *robust) check(sender string) (interface{}, error) {
	w := m.w
	probs := []string{}
	add := func(format string, args ...interface{}) { probs = append(probs, fmt.Sprintf(format, args...)) }

	log := w.logBuf.String()
	for _, l := range strings.Split(log, "\n") {
		if strings.Contains(l, "panic") {
			add("crash: %v", l)
			return probs, nil
		}
	}

	// Everybody but the sender is still there.
	for _, c := range []string{"a1", "a2", "a3", "a4", "b1"} {
		p := w.Clients[c]
		if err := p.Sync(); err != nil {
			add("%s gets no answer", c)
		}
		if p.Closed() && c != sender {
			add("%s was disconnected", c)
		}
		for _, msg := range p.Take() {
			if msg.Command == "UNPARSABLE" && c != sender {
				add("%s was sent %q", c, param(msg, 0))
			}
		}
	}
	for _, name := range []string{"n1", "n2", "nb"} {
		uc := m.ups[name]
		if uc.Closed() && name != sender {
			add("%s was disconnected", name)
		}
		if w.Nets[name].Cur() != uc && name != sender {
			add("%s was connected to again", name)
		}
	}
	if len(probs) > 0 {
		return probs, nil
	}

	// Those who suffered come back.
	if p := w.Clients[sender]; p != nil && p.Closed() {
		delete(w.Clients, sender)
		if err := w.WaitDownstreams(); err != nil {
			return nil, err
		}
		l := m.login[sender]
		if m.n%2 == 0 {
			l.Caps = nil
		}
		if _, err := w.Connect(l); err != nil {
			add("%s is not let in again: %v", sender, err)
			return probs, nil
		}
	}
	if m.ups["n1"].Closed() {
		k := w.Nets["n1"].NumConns()
		if err := m.again(); err != nil {
			add("n1 cannot be connected to again: %v", err)
			return probs, nil
		}
		if _, err := w.Nets["n1"].WaitConn(k); err != nil {
			add("n1 is not connected to again: %v", err)
			return probs, nil
		}
		uc, err := w.Nets["n1"].WaitUp()
		if err != nil {
			add("n1 is not registered with again: %v", err)
			return probs, nil
		}
		m.ups["n1"] = uc
		if err := uc.Sync(); err != nil {
			add("n1 gets no answer")
		}
	}

	// And messages still get through, both ways.
	for _, q := range [][2]string{{"n1", "a2"}, {"n2", "a4"}, {"nb", "b1"}, {"n1", "a1"}} {
		uc, p := m.ups[q[0]], w.Clients[q[1]]
		tok := newToken()
		uc.Sendf(":%s 371 x :%s", w.Nets[q[0]].Host, tok)
		has := func(msg *irc.Message) bool { return len(msg.Params) > 0 && msg.Params[len(msg.Params)-1] == tok }
		if err := uc.Sync(); err != nil {
			add("%s gets no answer", q[0])
			continue
		}
		if uc.Closed() {
			add("%s was disconnected after all", q[0])
			continue
		}
		if _, err := p.WaitMsg(has); err != nil {
			add("%s does not reach %s", q[0], q[1])
			continue
		}
		uc.Take()
		p.Sendf("PRIVMSG probe :%s", tok)
		if _, err := uc.WaitMsg(has); err != nil {
			add("%s does not reach %s", q[1], q[0])
		}
	}
	if m.fs {
		probs = append(probs, m.files(false)...)
	}
	return probs, nil
}

// files lists the files which are not where the logs of a network go.
func (m *robust) files(first bool) []string {
	probs := []string{}
	known := map[string]bool{"alice/n1": true, "alice/n2": true, "bob/nb": true}
	root := filepath.Join(m.w.Dir, "logs")
	filepath.WalkDir(m.w.Dir, func(path string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		rel, err := filepath.Rel(root, path)
		if err != nil || strings.HasPrefix(rel, "..") {
			if strings.HasSuffix(path, ".log") {
				probs = append(probs, "file outside of the logs: "+path)
			}
			return nil
		}
		l := strings.Split(rel, "/")
		if len(l) < 3 || len(l) > 4 || !known[l[0]+"/"+l[1]] {
			probs = append(probs, "file of nobody: "+rel)
		} else if l[0] == "bob" && l[2] != "probe" {
			var size int64
			if fi, err := os.Stat(path); err == nil {
				size = fi.Size()
			}
			if first {
				m.sizes[rel] = size
			} else if m.sizes[rel] != size {
				probs = append(probs, "file of bob: "+rel)
			}
		}
		return nil
	})
	return probs
}
