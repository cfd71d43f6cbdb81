package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// mirror replays Mirror.tla: the state of channels as clients see it.
type mirror struct {
	w   *World
	net *FakeNet

	mu   sync.Mutex
	snap Step
}

func init() {
	modules["mirror"] = func(init Step) (Module, error) {
		m := &mirror{w: NewWorld(), snap: init.Map("snap")}
		u := m.w.AddUser("alice", false)
		m.net = NewFakeNet("N")
		m.net.Caps = append([]string{}, extraCaps()...)
		if init.Bool("mp") {
			m.net.Caps = append(m.net.Caps, "multi-prefix")
		}
		m.net.ISupport = []string{"PREFIX=(qohv)~@%+", "CHANMODES=beI,k,l,imnst"}
		m.net.Handler = m.handle
		rec := m.w.AddNet(u, m.net, "n1")
		for _, ch := range m.snap.Strs("joined") {
			if err := m.w.DB.StoreChannel(context.Background(), rec.ID, &database.Channel{Name: ch}); err != nil {
				fatal("failed to store channel: %v", err)
			}
		}
		m.w.Start()
		if _, err := m.net.WaitUp(); err != nil {
			return m, err
		}
		if err := m.w.Sync(); err != nil {
			return m, err
		}
		m.take(false)
		return m, nil
	}
}

func (m *mirror) ServerLog() string { return m.w.logBuf.String() }
func (m *mirror) Close()            { m.w.Destroy() }

func (m *mirror) describe(uc *UpConn, ch string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	key := strings.ToLower(ch)
	lines := []string{fmt.Sprintf(":%s JOIN %s", uc.prefix(), ch)}
	t := m.snap.Map("topic").Map(key)
	if t.Str("text") != "" {
		lines = append(lines,
			fmt.Sprintf(":%s 332 %s %s :%s", m.net.Host, uc.Nick, ch, t.Str("text")),
			fmt.Sprintf(":%s 333 %s %s %s 1700000000", m.net.Host, uc.Nick, ch, t.Str("who")))
	}
	names := m.snap.Map("names").Strs(key)
	// In two lines, as networks do for large channels.
	h := (len(names) + 1) / 2
	for _, l := range [][]string{names[:h], names[h:]} {
		if len(l) > 0 {
			lines = append(lines, fmt.Sprintf(":%s 353 %s = %s :%s", m.net.Host, uc.Nick, ch, strings.Join(l, " ")))
		}
	}
	lines = append(lines, fmt.Sprintf(":%s 366 %s %s :End of /NAMES list", m.net.Host, uc.Nick, ch))
	uc.Send(lines...)
}

func modeText(l []string) string {
	flags, args := "+", ""
	for _, f := range l {
		flags += f[:1]
		if strings.Contains(f, "=") {
			args += " " + f[2:]
		}
	}
	return flags + args
}

func (m *mirror) handle(uc *UpConn, msg *irc.Message) bool {
	switch msg.Command {
	case "JOIN":
		for _, ch := range strings.Split(msg.Params[0], ",") {
			m.describe(uc, ch)
		}
	case "MODE":
		if len(msg.Params) == 1 && isChan(msg.Params[0]) {
			m.mu.Lock()
			l := m.snap.Map("modes").Strs(strings.ToLower(msg.Params[0]))
			m.mu.Unlock()
			uc.Sendf(":%s 324 %s %s %s", m.net.Host, uc.Nick, msg.Params[0], modeText(l))
		}
	default:
		return false
	}
	return true
}

// modeSet parses a mode string without signs other than a leading plus.
func modeSet(params []string) []string {
	l := []string{}
	if len(params) == 0 {
		return l
	}
	args := params[1:]
	for i, r := range params[0] {
		if r == '+' && i == 0 {
			continue
		}
		f := string(r)
		if f == "k" || f == "l" {
			if len(args) == 0 {
				f += "=?"
			} else {
				f += "=" + args[0]
				args = args[1:]
			}
		}
		l = append(l, f)
	}
	for _, a := range args {
		l = append(l, "extra "+a)
	}
	return l
}

func (m *mirror) take(byChannel bool) interface{} {
	out := map[string]interface{}{}
	up := []string{}
	if uc := m.net.Cur(); uc != nil {
		for _, msg := range uc.Take() {
			switch msg.Command {
			case "TOPIC", "KICK", "INVITE", "NAMES":
				up = append(up, strings.Join(append([]string{msg.Command}, msg.Params...), " "))
			case "MODE":
				if len(msg.Params) > 1 {
					up = append(up, strings.Join(append([]string{msg.Command}, msg.Params...), " "))
				}
			}
		}
	}
	for name, p := range m.w.Clients {
		ev := [][]interface{}{}
		bych := map[string][][]interface{}{}
		add := func(ch string, e ...interface{}) {
			if byChannel && ch != "" {
				bych[ch] = append(bych[ch], e)
			} else {
				ev = append(ev, e)
			}
		}
		who := map[string]string{}
		modes := map[string]interface{}{}
		obs := map[string]interface{}{}
		names := map[string][]string{}
		for _, msg := range p.Take() {
			ch := strings.ToLower(param(msg, 0))
			ch1 := strings.ToLower(param(msg, 1))
			src := msg.Prefix.Name
			switch msg.Command {
			case "001":
				obs["nick"] = param(msg, 0)
			case "221":
				obs["umode"] = modeSet(msg.Params[1:])
			case "JOIN":
				add(ch, "JOIN", ch, src)
			case "PART":
				add(ch, "PART", ch, src, param(msg, 1))
			case "QUIT":
				add("", "QUIT", src, param(msg, 0))
			case "NICK":
				add("", "NICK", src, param(msg, 0))
			case "KICK":
				add(ch, "KICK", ch, param(msg, 1), src)
			case "TOPIC":
				add(ch, "TOPIC", ch, param(msg, 1), src)
			case "MODE":
				t := msg.Params[0]
				if isChan(t) {
					t = ch
				}
				add("", "MODE", t, strings.Join(msg.Params[1:], " "))
			case "331":
				add(ch1, "notopic", ch1)
			case "332":
				add(ch1, "topic", ch1, param(msg, 2))
			case "333":
				if v, ok := who[ch1]; ok && v != param(msg, 2) {
					who[ch1] = v + " and " + param(msg, 2)
				} else {
					who[ch1] = param(msg, 2)
				}
			case "324":
				modes[ch1] = modeSet(msg.Params[2:])
			case "353":
				ch2 := strings.ToLower(param(msg, 2))
				names[ch2] = append(names[ch2], strings.Fields(param(msg, 3))...)
			case "366":
				l := names[ch1]
				sort.Strings(l)
				if l == nil {
					l = []string{}
				}
				delete(names, ch1)
				add(ch1, "names", ch1, l)
			case "403", "442", "401", "421":
				add("", "error", msg.Command)
			}
		}
		for ch := range names {
			add(ch, "names without end", ch)
		}
		obs["ev"], obs["who"], obs["modes"] = ev, who, modes
		if byChannel {
			obs["bych"] = bych
		}
		out[name] = obs
	}
	out["up"] = up
	return out
}

func (m *mirror) Do(st Step) (interface{}, error) {
	w := m.w
	ch := st.Str("ch")
	if st.Bool("up") {
		ch = strings.ToUpper(ch)
	}
	if st.Has("snap") {
		m.mu.Lock()
		m.snap = st.Map("snap")
		m.mu.Unlock()
	}
	pre := func(n string) string { return ":" + n + "!u@h" }
	uc := m.net.Up()
	byChannel := false
	switch st.Str("op") {
	case "connect":
		l := Login{Key: st.Str("c"), User: "alice", Net: "n1", Client: st.Str("c")}
		if st.Str("c") == "c1" {
			l.Caps = []string{"multi-prefix"}
		}
		if _, err := w.Connect(l); err != nil {
			return nil, err
		}
		byChannel = true
	case "disconnect":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "ojoin":
		uc.Sendf("%s JOIN %s", pre(st.Str("n")), ch)
	case "opart":
		if st.Str("r") == "" {
			uc.Sendf("%s PART %s", pre(st.Str("n")), ch)
		} else {
			uc.Sendf("%s PART %s :%s", pre(st.Str("n")), ch, st.Str("r"))
		}
	case "oquit":
		uc.Sendf("%s QUIT :gone", pre(st.Str("n")))
	case "onick":
		uc.Sendf("%s NICK :%s", pre(st.Str("n")), st.Str("m"))
	case "mynick":
		uc.Nick = st.Str("m")
		uc.Sendf("%s NICK :%s", pre(st.Str("n")), st.Str("m"))
	case "kick":
		uc.Sendf("%s KICK %s %s :out", pre(st.Str("by")), ch, st.Str("v"))
	case "mypart":
		if st.Bool("forced") {
			uc.Sendf("%s PART %s", pre(uc.Nick), ch)
		} else {
			w.Clients[st.Str("c")].Sendf("PART %s", ch)
		}
	case "myjoin":
		w.Clients[st.Str("c")].Sendf("JOIN %s", ch)
	case "mode":
		uc.Sendf("%s MODE %s %s", pre(st.Str("by")), ch, st.Str("text"))
	case "umode":
		uc.Sendf("%s MODE %s :%s", pre(st.Str("n")), st.Str("n"), st.Str("text"))
	case "topic":
		uc.Sendf("%s TOPIC %s :%s", pre(st.Str("by")), ch, st.Str("t"))
	case "cmd":
		w.Clients[st.Str("c")].Send(st.Str("line"))
	case "ask":
		c := w.Clients[st.Str("c")]
		switch st.Str("q") {
		case "UMODE":
			c.Sendf("MODE %s", st.Str("n"))
		default:
			c.Sendf("%s %s", st.Str("q"), ch)
		}
	case "blip":
		if err := w.NetDown(m.net); err != nil {
			return nil, err
		}
		w.NetUp(m.net)
		byChannel = true
	default:
		return nil, fmt.Errorf("unknown op %q", st.Str("op"))
	}
	if err := w.Sync(); err != nil {
		return nil, err
	}
	return m.take(byChannel), nil
}
