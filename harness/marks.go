package main

import (
	"fmt"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	"context"
)

// marks replays Marks.tla: read markers.
type marks struct {
	w       *World
	labels  map[string]string       // timestamps given to markers set to the present
	windows map[string][2]time.Time // when they were set
	gen     int
}

var marksBase = time.Date(2023, 11, 30, 23, 59, 59, 0, time.UTC)

func marksTick(t int) string {
	return marksBase.Add(time.Duration(t) * 250 * time.Millisecond).Format("2006-01-02T15:04:05.000Z")
}

func init() {
	modules["marks"] = func(init Step) (Module, error) {
		m := &marks{w: NewWorld(), labels: make(map[string]string), windows: make(map[string][2]time.Time)}
		w := m.w
		alice, bob := w.AddUser("alice", false), w.AddUser("bob", false)
		for _, name := range []string{"n1", "n2", "n3"} {
			n := NewFakeNet(name)
			n.Caps = append([]string{}, extraCaps()...)
			if name == "n2" {
				n.ISupport = []string{"CASEMAPPING=ascii"}
			} else if name == "n3" {
				n.ISupport = []string{"CASEMAPPING=rfc1459"}
			}
			u := alice
			if name == "n3" {
				u = bob
			}
			rec := w.AddNet(u, n, name)
			if name == "n1" {
				if err := w.DB.StoreChannel(context.Background(), rec.ID, &database.Channel{Name: "#a"}); err != nil {
					fatal("failed to store channel: %v", err)
				}
			}
		}
		w.Start()
		return m, m.settle()
	}
}

func (m *marks) ServerLog() string { return m.w.logBuf.String() }
func (m *marks) Close()            { m.w.Destroy() }

func (m *marks) settle() error {
	for _, n := range m.w.Nets {
		if _, err := n.WaitUp(); err != nil {
			return err
		}
	}
	return m.w.Sync()
}

func (m *marks) label(s string) string {
	if s == "*" {
		return s
	}
	s = strings.TrimPrefix(s, "timestamp=")
	for t := 1; t < 20; t++ {
		if s == marksTick(t) {
			return fmt.Sprintf("t%d", t)
		}
	}
	if l := m.labels[s]; l != "" {
		return l
	}
	ts, err := time.Parse("2006-01-02T15:04:05.000Z", s)
	if err == nil {
		for l, w := range m.windows {
			if !ts.Before(w[0].Add(-time.Millisecond)) && !ts.After(w[1]) {
				m.labels[s] = l
				return l
			}
		}
	}
	return s
}

func (m *marks) fold(net, s string) string {
	s = strings.ToLower(s)
	if net != "n2" {
		s = strings.NewReplacer("[", "{", "]", "}", "\\", "|", "^", "~").Replace(s)
	}
	return s
}

var marksNet = map[string]string{"c1": "n1", "c2": "n1", "c3": "n1", "c4": "n2", "c5": "none", "c6": "n3"}

func (m *marks) take() interface{} {
	out := map[string][][]string{}
	for name, p := range m.w.Clients {
		l := [][]string{}
		for _, msg := range p.Take() {
			switch msg.Command {
			case "MARKREAD", "READ":
				if len(msg.Params) != 2 {
					l = append(l, append([]string{msg.Command}, msg.Params...))
					continue
				}
				l = append(l, []string{msg.Command, m.fold(marksNet[name], msg.Params[0]), m.label(msg.Params[1])})
			case "FAIL":
				l = append(l, []string{"FAIL"})
			}
		}
		out[name] = l
	}
	return out
}

func (m *marks) Do(st Step) (interface{}, error) {
	w := m.w
	c := w.Clients[st.Str("c")]
	switch st.Str("op") {
	case "connect":
		l := Login{Key: st.Str("c"), User: "alice", Net: st.Str("net")}
		if l.Net == "none" {
			l.Net = ""
		}
		if st.Str("c") == "c6" {
			l.User = "bob"
		}
		switch st.Str("kind") {
		case "MARKREAD":
			l.Caps = []string{"draft/read-marker"}
		case "READ":
			l.Caps = []string{"soju.im/read"}
		}
		if _, err := w.Connect(l); err != nil {
			return nil, err
		}
	case "disconnect":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "set":
		var t0 time.Time
		ts := marksTick(st.Int("t"))
		if st.Int("t") == 0 {
			time.Sleep(3 * time.Millisecond) // later than the last one
			t0 = time.Now()
			ts = time.Now().Add(time.Hour).UTC().Format("2006-01-02T15:04:05.000Z")
		}
		c.Sendf("%s %s timestamp=%s", st.Str("cmd"), st.Str("x"), ts)
		if err := c.Sync(); err != nil {
			return nil, err
		}
		if st.Int("t") == 0 {
			m.windows[st.Str("label")] = [2]time.Time{t0, time.Now()}
		}
	case "get":
		cmd := st.Str("cmd")
		if cmd == "" {
			cmd = "MARKREAD"
		}
		c.Sendf("%s %s", cmd, st.Str("x"))
	case "bad":
		x := st.Str("x")
		switch st.Str("what") {
		case "criteria":
			c.Sendf("MARKREAD %s %s", x, marksTick(9))
		case "time":
			c.Sendf("MARKREAD %s timestamp=2030-13-01T00:00:00Z", x)
		case "noparam":
			c.Sendf("MARKREAD")
		case "msgid":
			c.Sendf("MARKREAD %s msgid=abc", x)
		case "empty":
			c.Sendf("MARKREAD %s timestamp=", x)
		}
	case "join":
		c.Sendf("JOIN %s", st.Str("ch"))
	case "leave":
		if st.Bool("detach") {
			c.Sendf("PART %s :detach", st.Str("ch"))
		} else {
			c.Sendf("PART %s", st.Str("ch"))
		}
	case "rejoin":
		n := w.Nets[st.Str("net")]
		k := n.NumConns()
		m.gen++
		var by *Peer
		for name, p := range w.Clients {
			if marksNet[name] == st.Str("net") {
				by = p
			}
		}
		switch st.Str("how") {
		case "lost":
			n.Cur().conn.Close()
		case "update":
			by.Sendf("PRIVMSG BouncerServ :network update -realname r%d", m.gen)
		case "rename":
			// there and back
			by.Sendf("PRIVMSG BouncerServ :network update -name x%d", m.gen)
			if _, err := n.WaitConn(k); err != nil {
				return nil, err
			}
			if err := m.settle(); err != nil {
				return nil, err
			}
			for _, p := range w.Clients {
				p.Take()
			}
			k = n.NumConns()
			by.Sendf("PRIVMSG BouncerServ :network update -name %s", st.Str("net"))
		}
		if _, err := n.WaitConn(k); err != nil {
			return nil, err
		}
	case "restart":
		ks := map[string]int{}
		for name, n := range w.Nets {
			ks[name] = n.NumConns()
		}
		f := w.Restart
		if st.Bool("kill") {
			f = w.Crash
		}
		if err := f(); err != nil {
			return nil, err
		}
		for name, n := range w.Nets {
			if _, err := n.WaitConn(ks[name]); err != nil {
				return nil, err
			}
		}
	case "renew":
		n := w.Nets["n2"]
		old := n.Cur()
		c.Sendf("PRIVMSG BouncerServ :network delete n2")
		if err := n.WaitGone(old); err != nil {
			return nil, err
		}
		if p := w.Clients["c4"]; p != nil {
			p.WaitClosed(syncTimeout)
			delete(w.Clients, "c4")
		}
		if err := c.Sync(); err != nil {
			return nil, err
		}
		k := n.NumConns()
		c.Sendf("PRIVMSG BouncerServ :network create -addr %s -name n2", n.Addr)
		if _, err := n.WaitConn(k); err != nil {
			return nil, err
		}
	}
	if err := m.settle(); err != nil {
		return nil, err
	}
	return m.take(), nil
}
