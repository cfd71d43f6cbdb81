package main

import (
	"context"
	"fmt"
	"strings"
	"sync"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// channels replays Channels.tla: saved channels.
type channels struct {
	w     *World
	net   *FakeNet
	netID int64
	n     int

	mu     sync.Mutex
	joined map[*UpConn]map[string]bool
	refuse map[string]bool
}

// longName gives the extra channels of the specification long names.
func longName(ch string) string {
	if strings.HasPrefix(ch, "#e") {
		return ch + "-" + strings.Repeat("long", 9)
	}
	return ch
}

func shortName(ch string) string {
	ch = strings.ToLower(ch)
	if i := strings.Index(ch, "-long"); i >= 0 {
		return ch[:i]
	}
	return ch
}

func init() {
	modules["channels"] = func(init Step) (Module, error) {
		m := &channels{w: NewWorld(), joined: make(map[*UpConn]map[string]bool), refuse: make(map[string]bool)}
		u := m.w.AddUser("alice", false)
		m.net = NewFakeNet("N")
		m.net.Caps = append([]string{}, extraCaps()...)
		m.net.Handler = m.handle
		rec := m.w.AddNet(u, m.net, "n1")
		m.netID = rec.ID
		for _, e := range init.List("saved") {
			f := toStrs(e)
			if err := m.w.DB.StoreChannel(context.Background(), rec.ID, &database.Channel{Name: longName(f[0]), Key: f[1]}); err != nil {
				fatal("failed to store channel: %v", err)
			}
		}
		m.w.Start()
		if _, err := m.net.WaitUp(); err != nil {
			return m, err
		}
		if err := m.w.Sync(); err != nil {
			return m, err
		}
		_, err := m.take()
		return m, err
	}
}

func (m *channels) ServerLog() string { return m.w.logBuf.String() }
func (m *channels) Close()            { m.w.Destroy() }

func (m *channels) handle(uc *UpConn, msg *irc.Message) bool {
	switch msg.Command {
	case "JOIN", "PART":
	default:
		return false
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.joined[uc] == nil {
		m.joined[uc] = make(map[string]bool)
	}
	for _, ch := range strings.Split(msg.Params[0], ",") {
		k := strings.ToLower(ch)
		switch {
		case msg.Command == "JOIN" && m.refuse[k]:
			uc.Sendf(":%s 475 %s %s :Cannot join channel (+k)", m.net.Host, uc.Nick, ch)
		case msg.Command == "JOIN" && !m.joined[uc][k]:
			m.joined[uc][k] = true
			uc.SendJoin(ch)
		case msg.Command == "PART" && m.joined[uc][k]:
			delete(m.joined[uc], k)
			uc.Sendf(":%s PART %s", uc.prefix(), ch)
		case msg.Command == "PART":
			uc.Sendf(":%s 442 %s %s :You're not on that channel", m.net.Host, uc.Nick, ch)
		}
	}
	return true
}

func (m *channels) take() (interface{}, error) {
	up := [][]string{}
	if uc := m.net.Cur(); uc != nil {
		for _, msg := range uc.Take() {
			switch msg.Command {
			case "JOIN":
				keys := strings.Split(param(msg, 1), ",")
				for i, ch := range strings.Split(msg.Params[0], ",") {
					key := ""
					if i < len(keys) {
						key = keys[i]
					}
					up = append(up, []string{"JOIN", shortName(ch), key})
				}
				if len(msg.String()) > 510 {
					up = append(up, []string{"line too long"})
				}
			case "PART":
				up = append(up, []string{"PART", shortName(msg.Params[0]), param(msg, 1)})
			}
		}
	}
	cl := map[string]interface{}{}
	for name, p := range m.w.Clients {
		l := [][]string{}
		for _, msg := range p.Take() {
			switch msg.Command {
			case "JOIN", "PART":
				if msg.Prefix.Name == "alice" {
					l = append(l, []string{msg.Command, shortName(msg.Params[0])})
				}
			case "KICK":
				l = append(l, []string{msg.Command, shortName(msg.Params[0])})
			case "INVITE":
				l = append(l, []string{msg.Command, shortName(msg.Params[1])})
			case "400", "403", "476":
				l = append(l, []string{"refused"})
			}
		}
		cl[name] = l
	}
	db := [][]string{}
	chs, err := m.w.DB.ListChannels(context.Background(), m.netID)
	if err != nil {
		return nil, err
	}
	for _, ch := range chs {
		det := ""
		if ch.Detached {
			det = "detached"
		}
		db = append(db, []string{shortName(ch.Name), ch.Key, det})
	}
	return map[string]interface{}{"up": up, "cl": cl, "db": db}, nil
}

func (m *channels) Do(st Step) (interface{}, error) {
	w := m.w
	ch := st.Str("ch")
	if st.Bool("upper") {
		ch = strings.ToUpper(ch)
	}
	switch st.Str("op") {
	case "connect":
		if _, err := w.Connect(Login{Key: st.Str("c"), User: "alice", Net: "n1", Client: st.Str("c")}); err != nil {
			return nil, err
		}
	case "disconnect":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "policy":
		m.mu.Lock()
		m.refuse = make(map[string]bool)
		for _, c := range st.Strs("refuse") {
			m.refuse[c] = true
		}
		m.mu.Unlock()
	case "join":
		w.Clients[st.Str("c")].Send(strings.TrimSpace("JOIN " + ch + " " + st.Str("key")))
	case "join2":
		keys := strings.TrimRight(strings.Join(st.Strs("keys"), ","), ",")
		w.Clients[st.Str("c")].Send(strings.TrimSpace("JOIN " + strings.Join(st.Strs("chs"), ",") + " " + keys))
	case "part":
		line := "PART " + ch
		if r := st.Str("reason"); r != "" {
			line += " :" + r
		}
		w.Clients[st.Str("c")].Send(line)
	case "service":
		w.Clients[st.Str("c")].Send("PRIVMSG BouncerServ :" + st.Str("cmd"))
	case "kick":
		uc := m.net.Up()
		m.mu.Lock()
		delete(m.joined[uc], st.Str("ch"))
		m.mu.Unlock()
		if st.Str("how") == "KICK" {
			uc.Sendf(":bob!b@bob.example KICK %s %s :out", st.Str("ch"), uc.Nick)
		} else {
			uc.Sendf(":%s PART %s :bye", uc.prefix(), st.Str("ch"))
		}
	case "force":
		uc := m.net.Up()
		m.mu.Lock()
		if m.joined[uc] == nil {
			m.joined[uc] = make(map[string]bool)
		}
		m.joined[uc][st.Str("ch")] = true
		m.mu.Unlock()
		uc.SendJoin(st.Str("ch"))
	case "invite":
		uc := m.net.Up()
		uc.Sendf(":bob!b@bob.example INVITE %s %s", uc.Nick, st.Str("ch"))
	case "down":
		if err := w.NetDown(m.net); err != nil {
			return nil, err
		}
	case "up":
		w.NetUp(m.net)
	case "update":
		k := m.net.NumConns()
		m.n++
		w.Clients[st.Str("c")].Sendf("PRIVMSG BouncerServ :network update -realname r%d", m.n)
		if _, err := m.net.WaitConn(k); err != nil {
			return nil, err
		}
		if _, err := m.net.WaitUp(); err != nil {
			return nil, err
		}
	case "restart", "crash":
		m.net.mu.Lock()
		m.net.Hold = false
		m.net.mu.Unlock()
		k := m.net.NumConns()
		var err error
		if st.Str("op") == "restart" {
			err = w.Restart()
		} else {
			err = w.Crash()
		}
		if err != nil {
			return nil, err
		}
		if _, err := m.net.WaitConn(k); err != nil {
			return nil, err
		}
		if _, err := m.net.WaitUp(); err != nil {
			return nil, err
		}
	default:
		return nil, fmt.Errorf("unknown op %q", st.Str("op"))
	}
	if err := w.Sync(); err != nil {
		return nil, err
	}
	return m.take()
}
