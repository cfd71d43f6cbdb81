package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"gopkg.in/irc.v4"
)

// presence replays Presence.tla: away status, MONITOR, regaining nicknames.
type presence struct {
	w     *World
	nicks map[string]string // nickname each client goes by

	flip  string
	asker string // of a nickname

	mu     sync.Mutex
	online map[string]map[string]bool // by network, folded
	lists  map[*UpConn]map[string]bool
	cmds   map[string][][]string
	mon    map[string]bool
	regain map[*UpConn]bool // an attempt to regain our nickname is due
}

const bulkSize = 60

func bulkName(i int) string { return fmt.Sprintf("someone-else-%02d", i) }

func init() {
	modules["presence"] = func(init Step) (Module, error) {
		m := &presence{w: NewWorld(), nicks: make(map[string]string), online: make(map[string]map[string]bool),
			lists: make(map[*UpConn]map[string]bool), cmds: make(map[string][][]string), mon: make(map[string]bool), regain: make(map[*UpConn]bool)}
		w := m.w
		alice := w.AddUser("alice", false)
		for _, name := range []string{"n1", "n2"} {
			cfg := init.Map("cfg").Map(name)
			m.online[name] = make(map[string]bool)
			for _, p := range init.Map("online").Strs(name) {
				m.online[name][p] = true
			}
			m.mon[name] = cfg.Bool("mon")
			n := NewFakeNet(name)
			n.Caps = append([]string{}, extraCaps()...)
			if cfg.Bool("pre") {
				n.Caps = append(n.Caps, "draft/pre-away")
			}
			if cfg.Bool("mon") {
				n.ISupport = []string{"MONITOR=100"}
			}
			n.Handler = m.handle
			rec := w.AddNet(alice, n, name)
			if !cfg.Bool("auto") {
				rec.AutoAway = false
				if err := w.DB.StoreNetwork(ctxBG, alice.ID, rec); err != nil {
					fatal("failed to store network: %v", err)
				}
			}
		}
		w.Start()
		if err := m.settle(); err != nil {
			return m, err
		}
		m.take()
		return m, nil
	}
}

func (m *presence) ServerLog() string { return m.w.logBuf.String() }
func (m *presence) Close()            { m.w.Destroy() }

func fold1459(s string) string {
	return strings.NewReplacer("[", "{", "]", "}", "\\", "|", "^", "~").Replace(strings.ToLower(s))
}

func (m *presence) settle() error {
	for _, n := range m.w.Nets {
		n.mu.Lock()
		hold := n.Hold
		n.mu.Unlock()
		if hold {
			continue
		}
		uc, err := n.WaitUp()
		if err != nil {
			return err
		}
		// Without MONITOR, the first attempt is made by a timer, at once.
		for i := 0; i < 3000; i++ {
			m.mu.Lock()
			due := m.regain[uc]
			m.mu.Unlock()
			if !due {
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
	return m.w.Sync()
}

// status tells soju who is online, as far as it asked for it.
func (m *presence) status(uc *UpConn, names ...string) {
	for _, name := range names {
		f := fold1459(name)
		if !m.lists[uc][f] {
			continue
		}
		if m.online[uc.net.Name][f] || f == fold1459(uc.Nick) {
			uc.Sendf(":%s 730 %s :%s!u@h", uc.net.Host, uc.Nick, name)
		} else {
			uc.Sendf(":%s 731 %s :%s", uc.net.Host, uc.Nick, name)
		}
	}
}

func (m *presence) handle(uc *UpConn, msg *irc.Message) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := uc.net
	if len(msg.String()) > 510 {
		m.cmds[n.Name] = append(m.cmds[n.Name], []string{"too long", msg.Command})
	}
	switch msg.Command {
	case "NICK":
		v := param(msg, 0)
		taken := m.online[n.Name][fold1459(v)]
		if uc.isWelcomed() {
			m.cmds[n.Name] = append(m.cmds[n.Name], []string{"NICK", v})
			delete(m.regain, uc)
			if taken {
				uc.Sendf(":%s 433 %s %s :Nickname is already in use", n.Host, uc.Nick, v)
				return true
			}
			m.rename(uc, v)
			return true
		}
		if taken {
			cur := uc.Nick
			if cur == "" {
				cur = "*"
			}
			m.regain[uc] = !m.mon[n.Name]
			uc.Sendf(":%s 433 %s %s :Nickname is already in use", n.Host, cur, v)
			return true
		}
	case "AWAY":
		m.cmds[n.Name] = append(m.cmds[n.Name], []string{"AWAY", param(msg, 0)})
	case "MONITOR":
		if !m.mon[n.Name] {
			m.cmds[n.Name] = append(m.cmds[n.Name], []string{"MONITOR", "unsupported"})
			return true
		}
		if m.lists[uc] == nil {
			m.lists[uc] = make(map[string]bool)
		}
		switch param(msg, 0) {
		case "+":
			var on, off []string
			for _, t := range strings.Split(param(msg, 1), ",") {
				f := fold1459(t)
				m.lists[uc][f] = true
				if m.online[n.Name][f] || f == fold1459(uc.Nick) {
					on = append(on, t+"!u@h")
				} else {
					off = append(off, t)
				}
			}
			for len(off) > 20 {
				uc.Sendf(":%s 731 %s :%s", n.Host, uc.Nick, strings.Join(off[:20], ","))
				off = off[20:]
			}
			if len(off) > 0 {
				uc.Sendf(":%s 731 %s :%s", n.Host, uc.Nick, strings.Join(off, ","))
			}
			if len(on) > 0 {
				uc.Sendf(":%s 730 %s :%s", n.Host, uc.Nick, strings.Join(on, ","))
			}
		case "-":
			for _, t := range strings.Split(param(msg, 1), ",") {
				delete(m.lists[uc], fold1459(t))
			}
		case "C":
			m.lists[uc] = make(map[string]bool)
		default:
			m.cmds[n.Name] = append(m.cmds[n.Name], append([]string{"MONITOR"}, msg.Params...))
		}
		return true
	}
	return false
}

func (m *presence) rename(uc *UpConn, v string) {
	old := uc.Nick
	p := uc.prefix()
	uc.Nick = v
	uc.Sendf(":%s NICK :%s", p, v)
	m.status(uc, old, v)
}

// collapse replaces the whole of a bulk by BULK.
func collapse(l []string, wrap func(s string) []string) [][]string {
	out := [][]string{}
	n := 0
	for _, s := range l {
		if strings.HasPrefix(s, "someone-else-") {
			n++
			continue
		}
		out = append(out, wrap(s))
	}
	if n == bulkSize {
		out = append(out, wrap("BULK"))
	} else if n > 0 {
		out = append(out, wrap(fmt.Sprintf("%d of the BULK", n)))
	}
	return out
}

func (m *presence) take() interface{} {
	cl := map[string][][]string{}
	for name, p := range m.w.Clients {
		evs := [][]string{}
		lists := map[string][]string{}
		for _, msg := range p.Take() {
			switch msg.Command {
			case "001":
				m.nicks[name] = param(msg, 0)
			case "NICK":
				if msg.Prefix.Name == m.nicks[name] {
					m.nicks[name] = param(msg, 0)
				} else {
					evs = append(evs, []string{"NICK of", msg.Prefix.Name})
				}
			case "305":
				evs = append(evs, []string{"back"})
			case "306":
				evs = append(evs, []string{"away"})
			case "421":
				if param(msg, 1) == "MONITOR" {
					evs = append(evs, []string{"421"})
				}
			case "433":
				if m.asker != "" && name != m.asker {
					continue // others may or may not be told
				}
				evs = append(evs, []string{"433"})
			case "730", "731", "732":
				if name == m.flip {
					continue
				}
				what := map[string]string{"730": "online", "731": "offline", "732": "list"}[msg.Command]
				for _, t := range strings.Split(param(msg, 1), ",") {
					lists[what] = append(lists[what], fold1459(irc.ParsePrefix(t).Name))
				}
			case "733":
				evs = append(evs, []string{"endlist"})
			}
		}
		for what, l := range lists {
			evs = append(evs, collapse(l, func(s string) []string { return []string{what, s} })...)
		}
		cl[name] = evs
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	net := map[string]interface{}{}
	for name, n := range m.w.Nets {
		o := map[string]interface{}{"cmds": m.cmds[name], "sm": []string{}, "nick": ""}
		if uc := n.Up(); uc != nil {
			o["nick"] = uc.Nick
			var l []string
			for t := range m.lists[uc] {
				l = append(l, t)
			}
			sm := []string{}
			for _, e := range collapse(l, func(s string) []string { return []string{s} }) {
				sm = append(sm, e[0])
			}
			o["sm"] = sm
		}
		net[name] = o
	}
	m.cmds = make(map[string][][]string)
	nicks := map[string]string{}
	for name := range m.w.Clients {
		n := m.w.Nets[presenceNet[name]]
		if n != nil && n.Up() != nil {
			nicks[name] = m.nicks[name]
		}
	}
	return map[string]interface{}{"cl": cl, "net": net, "nicks": nicks}
}

var presenceNet = map[string]string{"c1": "n1", "c2": "n1", "c3": "n2"}

func monNames(st Step) string {
	var l []string
	for _, n := range st.Strs("names") {
		switch {
		case n == "BULK":
			for i := 0; i < bulkSize; i++ {
				l = append(l, bulkName(i))
			}
			continue
		case st.Int("var") == 1:
			n = strings.ToUpper(n)
		case st.Int("var") == 2:
			n = strings.ReplaceAll(n, "{", "[")
		}
		l = append(l, n)
	}
	return strings.Join(l, ",")
}

func (m *presence) Do(st Step) (interface{}, error) {
	w := m.w
	c := w.Clients[st.Str("c")]
	n := w.Nets[st.Str("net")]
	m.asker, m.flip = "", ""
	switch st.Str("op") {
	case "connect":
		l := Login{Key: st.Str("c"), User: "alice", Net: st.Str("net"), Caps: []string{"draft/pre-away"}}
		if l.Net == "none" {
			l.Net = ""
		}
		if st.Bool("pre") {
			l.Pre = []string{"AWAY :gone fishing"}
		}
		if _, err := w.Connect(l); err != nil {
			return nil, err
		}
	case "disconnect":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "away":
		if st.Bool("a") {
			c.Send("AWAY :gone fishing")
		} else {
			c.Send("AWAY")
		}
	case "monadd":
		c.Send("MONITOR + " + monNames(st))
	case "mondel":
		c.Send("MONITOR - " + monNames(st))
	case "monflip":
		m.flip = st.Str("c")
		c.Send("MONITOR + " + monNames(st))
		c.Send("MONITOR - " + monNames(st))
	case "monclear":
		c.Send("MONITOR C")
	case "monask":
		c.Send("MONITOR " + st.Str("what"))
	case "comes", "goes":
		m.mu.Lock()
		m.online[st.Str("net")][st.Str("p")] = st.Str("op") == "comes"
		m.status(n.Up(), st.Str("p"))
		m.mu.Unlock()
	case "forced":
		m.mu.Lock()
		m.rename(n.Up(), "guest")
		m.mu.Unlock()
	case "nick":
		m.asker = st.Str("c")
		c.Send("NICK " + st.Str("v"))
	case "wait":
		// long enough for the next attempt of a timer, not for another one
		time.Sleep(26 * time.Second)
	case "down":
		if err := w.NetDown(n); err != nil {
			return nil, err
		}
	case "up":
		w.NetUp(n)
	case "auto":
		k := n.NumConns()
		c.Sendf("PRIVMSG BouncerServ :network update -auto-away %v", st.Bool("a"))
		if _, err := n.WaitConn(k); err != nil {
			return nil, err
		}
	case "restart":
		ks := map[string]int{}
		for name, n := range w.Nets {
			n.mu.Lock()
			n.Hold = false
			n.mu.Unlock()
			ks[name] = n.NumConns()
		}
		if err := w.Restart(); err != nil {
			return nil, err
		}
		for name, n := range w.Nets {
			if _, err := n.WaitConn(ks[name]); err != nil {
				return nil, err
			}
		}
	}
	if err := m.settle(); err != nil {
		return nil, err
	}
	return m.take(), nil
}
