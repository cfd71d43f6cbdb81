package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// caps replays Caps.tla: capabilities and ISUPPORT.
type caps struct {
	w *World
	n *FakeNet

	mu    sync.Mutex
	down  bool
	lines int      // how CAP LS is sent
	offer []string // name or name=value
	names map[string]bool
	isup  map[string]string
	ls    *UpConn // waits for an answer to CAP LS
	errs  []string
	got   []*irc.Message
	echo  []string
}

func offered(st Step) []string {
	l := st.Strs("caps")
	for _, k := range [][2]string{{"sasl", "sasl"}, {"reg", "draft/account-registration"}} {
		switch v := st.Str(k[0]); v {
		case "~":
		case "":
			l = append(l, k[1])
		default:
			l = append(l, k[1]+"="+v)
		}
	}
	sort.Strings(l)
	return l
}

func (m *caps) setOffer(l []string) {
	m.offer = l
	m.names = make(map[string]bool)
	for _, t := range l {
		m.names[strings.SplitN(t, "=", 2)[0]] = true
	}
}

func init() {
	modules["caps"] = func(init Step) (Module, error) {
		m := &caps{w: NewWorld(), lines: 1, isup: make(map[string]string)}
		w := m.w
		w.Cfg.MsgStoreDriver = "db"
		w.Cfg.Title = "The Bouncer"
		m.setOffer(offered(init.Map("offer")))
		alice := w.AddUser("alice", false)
		n := NewFakeNet("n1")
		m.n = n
		n.Caps = []string{}
		n.Handler = m.handle
		n.Welcome = func(uc *UpConn) []string {
			m.mu.Lock()
			defer m.mu.Unlock()
			var l []string
			for k, v := range m.isup {
				if v != "~" {
					l = append(l, fmt.Sprintf(":%s 005 %s %s :are supported", n.Host, uc.Nick, isupToken(k, v)))
				}
			}
			return l
		}
		rec := w.AddNet(alice, n, "n1")
		w.Nets["n1"] = n
		if err := w.DB.StoreChannel(ctxBG, rec.ID, &database.Channel{Name: "#c"}); err != nil {
			fatal("failed to store channel: %v", err)
		}
		w.Start()
		if _, err := n.WaitUp(); err != nil {
			return m, err
		}
		return m, w.Sync()
	}
}

func isupToken(k, v string) string {
	switch v {
	case "~":
		return "-" + k
	case "-":
		return k
	}
	return k + "=" + v
}

func (m *caps) ServerLog() string { return m.w.logBuf.String() }
func (m *caps) Close()            { m.w.Destroy() }

func (m *caps) sendLS(uc *UpConn) {
	host := m.n.Host
	k := (len(m.offer) + 1) / 2
	switch m.lines {
	case 1:
		uc.Sendf(":%s CAP * LS :%s", host, strings.Join(m.offer, " "))
	case 2:
		uc.Sendf(":%s CAP * LS * :%s", host, strings.Join(m.offer[:k], " "))
		uc.Sendf(":%s CAP * LS :%s", host, strings.Join(m.offer[k:], " "))
	case 3:
		uc.Sendf(":%s CAP alice LS * :%s", host, strings.Join(m.offer[:k], " "))
		uc.Sendf(":%s CAP alice LS :%s", host, strings.Join(m.offer[k:], " "))
	}
}

func (m *caps) handle(uc *UpConn, msg *irc.Message) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := uc.net
	switch msg.Command {
	case "CAP":
		switch strings.ToUpper(param(msg, 0)) {
		case "LS":
			uc.capLS = true
			if m.down {
				m.ls = uc
			} else {
				m.sendLS(uc)
			}
			return true
		case "REQ":
			ok := true
			toks := strings.Fields(param(msg, 1))
			for _, t := range toks {
				if !strings.HasPrefix(t, "-") && !m.names[t] {
					ok = false
				}
			}
			if !ok {
				uc.Sendf(":%s CAP * NAK :%s", n.Host, param(msg, 1))
				return true
			}
			for _, t := range toks {
				if strings.HasPrefix(t, "-") {
					delete(uc.Caps, t[1:])
				} else {
					uc.Caps[t] = true
				}
			}
			uc.Sendf(":%s CAP * ACK :%s", n.Host, param(msg, 1))
			return true
		case "END":
			for t := range m.names {
				if t != "vendor/other" && t != "echo-message" && !uc.Caps[t] {
					m.errs = append(m.errs, "negotiation ended without "+t)
				}
			}
		}
	case "PRIVMSG", "NOTICE", "TAGMSG":
		m.got = append(m.got, msg)
		if len(m.echo) > 0 {
			tags := m.tags(m.echo, true)
			if l, ok := msg.Tags["label"]; ok {
				tags = append(tags, "label="+string(l))
			}
			rest := ""
			if msg.Command != "TAGMSG" {
				rest = " :" + param(msg, 1)
			}
			uc.Sendf("@%s :%s %s %s%s", strings.Join(tags, ";"), uc.prefix(), msg.Command, param(msg, 0), rest)
		}
		return true
	case "MODE", "WHO", "MONITOR":
		return true
	}
	return false
}

// tags are the tags of a message of the network.
func (m *caps) tags(l []string, own bool) []string {
	out := []string{}
	for _, t := range l {
		switch t {
		case "time":
			if m.names["server-time"] {
				out = append(out, "time=2026-01-02T03:04:05.678Z")
			}
		case "account":
			out = append(out, "account=someacc")
		case "+x":
			out = append(out, "+x=y")
		case "msgid":
			out = append(out, "msgid=1234")
		}
	}
	return out
}

var capsTracked = map[string]bool{"NETWORK": true, "TOPICLEN": true, "WHOX": true, "AWAYLEN": true, "SAFELIST": true, "XOTHER": true}

func setOf(l []string) map[string]interface{} { return map[string]interface{}{"set": l} }

func (m *caps) events(name string, p *Peer, st Step) []interface{} {
	evs := []interface{}{}
	add := func(l ...interface{}) { evs = append(evs, l) }
	for _, msg := range p.Take() {
		var tags []string
		for t := range msg.Tags {
			tags = append(tags, t)
		}
		if tags == nil {
			tags = []string{}
		}
		switch msg.Command {
		case "CAP":
			sub := param(msg, 1)
			l := strings.Fields(msg.Params[len(msg.Params)-1])
			switch sub {
			case "LS", "LIST":
				for _, t := range l {
					add(sub, t)
				}
			case "ACK", "NAK":
				add(sub, l)
			default:
				for _, t := range l {
					add(sub, t)
				}
			}
		case "005":
			if len(msg.Params) > 15 {
				add("too many parameters")
			}
			for _, t := range msg.Params[1 : len(msg.Params)-1] {
				k, v := t, "-"
				if strings.HasPrefix(t, "-") {
					k, v = t[1:], "~"
				} else if i := strings.IndexByte(t, '='); i >= 0 {
					k, v = t[:i], t[i+1:]
				}
				switch {
				case capsTracked[k]:
					add("005", k, v)
				case k == "soju.im/SAFERATE":
				default:
					add("005", t)
				}
			}
		case "396":
			add("396", param(msg, 1))
		case "900":
			add("900", param(msg, 2))
		case "901":
			add("901")
		case "421", "461", "410", "FAIL", "ERROR":
			add(msg.String())
		case "BATCH":
			add("BATCH")
		case "JOIN", "PART":
			if msg.Prefix.Name == "alice" {
				continue
			}
			add(msg.Command, strings.Join(msg.Params[1:], " "), tags)
		case "CHGHOST":
			if msg.Prefix.Name == "alice" {
				add("CHGHOST", param(msg, 0), param(msg, 1))
			} else {
				add("chghost", "", tags)
			}
		case "SETNAME", "AWAY", "ACCOUNT":
			if msg.Command == "SETNAME" && msg.Prefix.Name == "alice" {
				continue
			}
			add(strings.ToLower(msg.Command), "", tags)
		case "INVITE":
			if param(msg, 0) == "alice" {
				add("INVITE", "me", tags)
			} else {
				add("invite", "", tags)
			}
		case "PRIVMSG", "NOTICE", "TAGMSG":
			switch {
			case msg.Prefix.Name == "BouncerServ":
			case msg.Prefix.Name == "alice":
				if msg.Command != "TAGMSG" && param(msg, 1) != "said" {
					add("text", param(msg, 1))
				}
				add("own "+msg.Command, param(msg, 0), tags)
			case msg.Command == "TAGMSG":
				add("tagmsg", "", tags)
			default:
				add(msg.Command, param(msg, 1), tags)
			}
		}
	}
	return evs
}

func (m *caps) take(st Step) interface{} {
	cl := map[string]interface{}{}
	for name, p := range m.w.Clients {
		cl[name] = m.events(name, p, st)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	net := []string{}
	if uc := m.n.Up(); uc != nil && !m.down {
		for c := range uc.Caps {
			net = append(net, c)
		}
	}
	net = append(net, m.errs...)
	m.errs, m.got, m.echo = nil, nil, nil
	return map[string]interface{}{"cl": cl, "net": net}
}

func (m *caps) Do(st Step) (interface{}, error) {
	w, n := m.w, m.n
	c := w.Clients[st.Str("c")]
	send := func(format string, args ...interface{}) { n.Cur().Sendf(format, args...) }
	switch st.Str("op") {
	case "connect":
		c := w.Dial(st.Str("c"))
		var lines []string
		switch st.Int("ver") {
		case 301:
			lines = append(lines, "CAP LS")
		case 302:
			lines = append(lines, "CAP LS 302")
		}
		for _, r := range st.List("reqs") {
			lines = append(lines, "CAP REQ :"+strings.Join(toStrs(r), " "))
		}
		user := "alice/n1"
		if st.Str("c") == "c3" {
			user = "alice"
		}
		lines = append(lines, "PASS pw", "NICK alice", "USER "+user+" 0 * :alice")
		if len(lines) > 3 {
			lines = append(lines, "CAP END")
		}
		c.Send(lines...)
		if _, err := c.WaitMsg(func(msg *irc.Message) bool { return msg.Command == "001" || msg.Command == "ERROR" }); err != nil {
			return nil, err
		}
		w.nAlive++
	case "disconnect":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "req":
		c.Send("CAP REQ :" + strings.Join(st.Strs("S"), " "))
	case "list":
		c.Send("CAP " + st.Str("what"))
	case "down":
		m.mu.Lock()
		m.down, m.ls = true, nil
		m.mu.Unlock()
		n.Cur().conn.Close()
		if !m.waitLS() {
			return nil, fmt.Errorf("reconnection: %w", errNoAnswer)
		}
	case "up":
		m.mu.Lock()
		m.setOffer(offered(st.Map("offer")))
		m.lines = st.Int("lines")
		m.down = false
		m.sendLS(m.ls)
		m.mu.Unlock()
		if _, err := n.WaitUp(); err != nil {
			return nil, err
		}
	case "capnew":
		m.mu.Lock()
		l := offered(st.Map("new"))
		m.setOffer(append(append([]string{}, m.offer...), l...))
		m.mu.Unlock()
		send(":%s CAP alice NEW :%s", n.Host, strings.Join(l, " "))
	case "capdel":
		del := st.Strs("del")
		m.mu.Lock()
		uc := n.Cur()
		var l []string
		for _, t := range m.offer {
			keep := true
			for _, d := range del {
				if strings.SplitN(t, "=", 2)[0] == d {
					keep = false
				}
			}
			if keep {
				l = append(l, t)
			}
		}
		for _, d := range del {
			delete(uc.Caps, d)
		}
		m.setOffer(l)
		m.mu.Unlock()
		send(":%s CAP alice DEL :%s", n.Host, strings.Join(del, " "))
	case "isupport":
		var toks []string
		m.mu.Lock()
		for k, v := range st.Map("x") {
			m.isup[k] = v.(string)
			toks = append(toks, isupToken(k, v.(string)))
		}
		m.mu.Unlock()
		send(":%s 005 alice %s :are supported", n.Host, strings.Join(toks, " "))
	case "logged":
		h := st.Strs("h")
		if st.Str("a") == "" {
			send(":%s 901 alice alice!%s@%s :You are now logged out", n.Host, h[0], h[1])
		} else {
			send(":%s 900 alice alice!%s@%s %s :You are now logged in", n.Host, h[0], h[1], st.Str("a"))
		}
	case "host":
		h := st.Strs("h")
		switch st.Str("kind") {
		case "396":
			send(":%s 396 alice %s :is now your hidden host", n.Host, h[1])
		case "396u":
			send(":%s 396 alice %s@%s :is now your hidden host", n.Host, h[0], h[1])
		case "CHGHOST":
			send(":alice!u@h CHGHOST %s %s", h[0], h[1])
		}
	case "event":
		m.mu.Lock()
		t := strings.Join(m.tags(st.Strs("tags"), false), ";")
		m.mu.Unlock()
		if t != "" {
			t = "@" + t + " "
		}
		bob := t + ":bob!b@host.example"
		switch k := st.Str("k"); k {
		case "join":
			if st.Bool("ext") {
				send("%s JOIN #c bobacc :Bob", bob)
			} else {
				send("%s JOIN #c", bob)
			}
			send("%s PART #c", bob)
		case "away":
			send("%s AWAY :gone", bob)
		case "account":
			send("%s ACCOUNT bobacc", bob)
		case "chghost":
			send("%s CHGHOST b2 host2.example", bob)
		case "setname":
			send("%s SETNAME :Bob the second", bob)
		case "invite":
			send("%s INVITE eve #z", bob)
		case "inviteme":
			send("%s INVITE alice #z", bob)
		case "tagmsg":
			send("%s TAGMSG #c", bob)
		case "privmsg":
			send("%s PRIVMSG #c :hello", bob)
		case "msgbatch":
			send(":%s BATCH +b1 example.com/foo", n.Host)
			send("@batch=b1;%s PRIVMSG #c :hello", bob[1:])
			send(":%s BATCH -b1", n.Host)
		}
	case "say":
		m.mu.Lock()
		m.echo = st.Strs("echo")
		m.mu.Unlock()
		targets := st.Strs("targets")
		line := "@+x=y;secret=1 " + st.Str("k") + " " + strings.Join(targets, ",")
		if st.Str("k") != "TAGMSG" {
			line += " :said"
		}
		c.Send(line)
		if err := w.Sync(); err != nil {
			return nil, err
		}
		m.checkSaid(st, targets)
	default:
		return nil, fmt.Errorf("unknown step %v", st)
	}
	if err := w.Sync(); err != nil {
		return nil, err
	}
	return m.take(st), nil
}

// checkSaid checks what the network was sent.
func (m *caps) checkSaid(st Step, targets []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	bad := func(format string, args ...interface{}) { m.errs = append(m.errs, fmt.Sprintf(format, args...)) }
	if len(m.got) != len(targets) {
		bad("%d messages sent to the network", len(m.got))
	}
	labels := map[string]bool{}
	for i, msg := range m.got {
		if msg.Command != st.Str("k") || i >= len(targets) || param(msg, 0) != targets[i] {
			bad("sent %q", msg)
		}
		for t, v := range msg.Tags {
			switch {
			case t == "label" && st.Bool("label"):
				labels[string(v)] = true
			case t == "+x" && st.Bool("tagged"):
			default:
				bad("sent tag %v", t)
			}
		}
		if _, ok := msg.Tags["+x"]; st.Bool("tagged") && !ok {
			bad("lost the tag")
		}
	}
	if st.Bool("label") && len(labels) != len(targets) {
		bad("%d labels", len(labels))
	}
}

func (m *caps) waitLS() bool {
	for i := 0; i < 12000; i++ {
		m.mu.Lock()
		ok := m.ls != nil
		m.mu.Unlock()
		if ok {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}
