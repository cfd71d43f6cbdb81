package main

import (
	"fmt"
	"strings"
	"sync"

	"gopkg.in/irc.v4"
)

// who replays Who.tla: WHO questions, whoever answers them.
type who struct {
	w   *World
	net *FakeNet
	mp  bool

	mu    sync.Mutex
	lines map[string][]string // to answer a command with
	onl   map[string]string   // prefix by folded nickname
	rows  [][]string          // to answer WHO with
	asked int
	lists map[*UpConn]map[string]bool
}

func init() {
	modules["who"] = func(init Step) (Module, error) {
		m := &who{w: NewWorld(), lines: make(map[string][]string), onl: make(map[string]string), lists: make(map[*UpConn]map[string]bool)}
		u := m.w.AddUser("alice", false)
		m.net = NewFakeNet("N")
		m.net.Host = "irc.example"
		m.net.Caps = []string{"message-tags"}
		cfg := init.Map("net")
		m.mp = cfg.Bool("mp")
		for k, c := range map[string]string{"an": "account-notify", "aw": "away-notify", "chg": "chghost", "ej": "extended-join", "em": "extended-monitor", "mp": "multi-prefix", "sn": "setname"} {
			if cfg.Bool(k) {
				m.net.Caps = append(m.net.Caps, c)
			}
		}
		m.net.ISupport = []string{"PREFIX=(ov)@+", "MONITOR=100", "BOT=B", "WHOX", "CASEMAPPING=ascii"}
		m.net.Handler = m.handle
		m.w.AddNet(u, m.net, "n1")
		m.w.Start()
		if _, err := m.net.WaitUp(); err != nil {
			return m, err
		}
		for i, c := range []string{"c1", "c2"} {
			l := Login{Key: c, User: "alice", Net: "n1", Client: c, Caps: []string{"extended-monitor"}}
			if i == 0 {
				l.Caps = []string{"multi-prefix"}
			}
			if _, err := m.w.Connect(l); err != nil {
				return m, err
			}
		}
		err := m.w.Sync()
		m.take("c1")
		m.take("c2")
		return m, err
	}
}

func (m *who) ServerLog() string { return m.w.logBuf.String() }
func (m *who) Close()            { m.w.Destroy() }

// fill puts our nickname in place.
func fill(uc *UpConn, lines []string) []string {
	var l []string
	for _, s := range lines {
		f := strings.SplitN(s, " ", 4)
		if f[0] == ":irc.example" && f[2] == "me" {
			f[2] = uc.Nick
			s = strings.Join(f, " ")
		}
		l = append(l, s)
	}
	return l
}

func (m *who) handle(uc *UpConn, msg *irc.Message) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	switch msg.Command {
	case "JOIN", "PART", "NICK":
		if !uc.isWelcomed() {
			return false
		}
		l := fill(uc, m.lines[msg.Command])
		if msg.Command == "NICK" {
			uc.Nick = msg.Params[0]
		}
		delete(m.lines, msg.Command)
		uc.Send(l...)
		return true
	case "MONITOR":
		list := m.lists[uc]
		if list == nil {
			list = make(map[string]bool)
			m.lists[uc] = list
		}
		if msg.Params[0] == "C" {
			m.lists[uc] = make(map[string]bool)
			return true
		}
		for _, n := range strings.Split(param(msg, 1), ",") {
			f := strings.ToLower(n)
			if msg.Params[0] == "-" {
				delete(list, f)
				continue
			}
			list[f] = true
			if p, ok := m.onl[f]; ok {
				uc.Sendf(":irc.example 730 %s :%s", uc.Nick, p)
			} else {
				uc.Sendf(":irc.example 731 %s :%s", uc.Nick, n)
			}
		}
		return true
	case "WHO":
		m.asked++
		for _, r := range m.rows {
			uc.Sendf(":irc.example %s %s %s :%s", r[0], uc.Nick, strings.Join(r[1:len(r)-1], " "), r[len(r)-1])
		}
		uc.Sendf(":irc.example 315 %s %s :End of /WHO list", uc.Nick, param(msg, 0))
		return true
	}
	return false
}

// take returns the lines of the answer to a WHO that a client was given.
func (m *who) take(c string) (rows [][]string, ends []string) {
	rows = [][]string{}
	for _, msg := range m.w.Clients[c].Take() {
		switch msg.Command {
		case "352", "354":
			rows = append(rows, append([]string{msg.Command}, msg.Params[1:]...))
		case "315":
			ends = append(ends, param(msg, 1))
		}
	}
	return rows, ends
}

// first reduces the prefixes in a field of flags to the highest.
func first(s string) string {
	out, got := "", false
	for _, r := range s {
		if r == '@' || r == '+' {
			if got {
				continue
			}
			got = true
		}
		out += string(r)
	}
	return out
}

func (m *who) ask(c, mask string, form Step, truth interface{}) (interface{}, error) {
	fi := 6
	if fs := form.Strs("fs"); len(fs) > 0 {
		fi = -1
		for i, f := range fs {
			if f == "f" {
				fi = i + 1
			}
		}
	}
	var want [][]string
	if e, ok := truth.(map[string]interface{}); ok {
		for _, r := range toList(e["set"]) {
			want = append(want, toStrs(r))
		}
	}
	m.mu.Lock()
	m.rows = want
	m.mu.Unlock()
	m.w.Clients[c].Send(strings.TrimSpace(fmt.Sprintf("WHO %s %s", mask, form.Str("opt"))))
	if err := m.w.Sync(); err != nil {
		return nil, err
	}
	other := "c1"
	if c == "c1" {
		other = "c2"
	}
	if rows, ends := m.take(other); len(rows) > 0 || len(ends) > 0 {
		return nil, fmt.Errorf("%v was given an answer: %v %v", other, rows, ends)
	}
	rows, ends := m.take(c)
	if len(ends) != 1 || ends[0] != mask {
		return rows, fmt.Errorf("ends of the answer: %v", ends)
	}
	// Clients that know about one prefix only may be shown more than that.
	if !m.mp || c != "c1" {
		for _, r := range rows {
			if fi > 0 && fi < len(r) {
				r[fi] = first(r[fi])
			}
		}
	}
	return rows, nil
}

func (m *who) Do(st Step) (interface{}, error) {
	w := m.w
	if st.Has("onl") {
		m.mu.Lock()
		m.onl = make(map[string]string)
		for _, x := range toList(st.Map("onl")["set"]) {
			l := toStrs(x)
			m.onl[strings.ToLower(l[0])] = l[1]
		}
		m.mu.Unlock()
	}
	on := func(cmd string) {
		m.mu.Lock()
		m.lines[cmd] = st.Strs("lines")
		m.mu.Unlock()
	}
	switch st.Str("op") {
	case "event":
		uc := m.net.Up()
		uc.Send(fill(uc, st.Strs("lines"))...)
	case "join":
		on("JOIN")
		w.Clients["c1"].Sendf("JOIN %s", st.Str("ch"))
		if st.Int("early") > 0 {
			if err := w.Sync(); err != nil {
				return nil, err
			}
			rows, err := m.ask("c1", st.Str("ch"), st.Map("form"), st["rows"])
			if err != nil {
				return rows, err
			}
			uc := m.net.Up()
			uc.Send(fill(uc, st.Strs("rest"))...)
			return rows, w.Sync()
		}
	case "part":
		on("PART")
		w.Clients["c1"].Sendf("PART %s", st.Str("ch"))
	case "selfaway":
		for _, c := range []string{"c1", "c2"} {
			if st.Bool("away") {
				w.Clients[c].Send("AWAY :not here")
			} else {
				w.Clients[c].Send("AWAY")
			}
		}
	case "selfnick":
		on("NICK")
		w.Clients["c1"].Sendf("NICK %s", st.Str("nick"))
	case "mon":
		w.Clients[st.Str("c")].Sendf("MONITOR %s", st.Str("n"))
	case "bounce":
		on("JOIN")
		if err := w.NetDown(m.net); err != nil {
			return nil, err
		}
		w.NetUp(m.net)
		if _, err := m.net.WaitUp(); err != nil {
			return nil, err
		}
	case "ask":
		return m.ask(st.Str("c"), st.Str("as"), st.Map("form"), st["rows"])
	}
	err := w.Sync()
	for _, c := range []string{"c1", "c2"} {
		m.take(c)
	}
	return []string{}, err
}
