package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// relay replays Relay.tla: live messages between networks and clients.
type relay struct {
	w     *World
	req   Step
	netOf Step
	texts map[string]int
}

func init() {
	modules["relay"] = func(init Step) (Module, error) {
		m := &relay{w: NewWorld(), req: init.Map("req"), netOf: init.Map("netof"), texts: make(map[string]int)}
		upcaps := init.Map("upcaps")
		ua := m.w.AddUser("alice", false)
		ub := m.w.AddUser("bea", false)
		for _, n := range []struct {
			key, name string
			u         *database.User
		}{{"A1", "n1", ua}, {"A2", "n2", ua}, {"B1", "n1", ub}} {
			fn := NewFakeNet(n.key)
			fn.Caps = append([]string{}, toStrs(upcaps[n.key])...)
			fn.ISupport = []string{"STATUSMSG=@+", "CASEMAPPING=rfc1459"}
			fn.Handler = echoHandler
			rec := m.w.AddNet(n.u, fn, n.name)
			if err := m.w.DB.StoreChannel(context.Background(), rec.ID, &database.Channel{Name: "#a"}); err != nil {
				fatal("failed to store channel: %v", err)
			}
		}
		m.w.Start()
		for _, n := range m.w.Nets {
			if _, err := n.WaitUp(); err != nil {
				return m, err
			}
		}
		if err := m.w.Sync(); err != nil {
			return m, err
		}
		m.take()
		return m, nil
	}
}

// echoHandler makes a fake network echo messages when soju asked for it.
func echoHandler(uc *UpConn, msg *irc.Message) bool {
	switch msg.Command {
	case "PRIVMSG", "NOTICE", "TAGMSG":
	default:
		return false
	}
	if !uc.Caps["echo-message"] {
		return true
	}
	out := msg.Copy()
	out.Prefix = &irc.Prefix{Name: uc.Nick, User: "u", Host: "me.example"}
	uc.Send(out.String())
	return true
}

func (m *relay) ServerLog() string { return m.w.logBuf.String() }
func (m *relay) Close()            { m.w.Destroy() }

var relayTexts = []string{
	"hello world", ":colon first", "  two  spaces ", "unicode ✓ é", "\x01ACTION waves\x01", "x", "a,b;c=d", "#a me bob",
	"@at +plus $dollar", "trailing:", "1234", "\x02bold\x0f",
}

func (m *relay) text(id int) string {
	t := fmt.Sprintf("%s %d", relayTexts[id%len(relayTexts)], id)
	if id%len(relayTexts) == 4 {
		t = fmt.Sprintf("\x01ACTION waves %d\x01", id)
	}
	m.texts[t] = id
	return t
}

func (m *relay) id(msg *irc.Message) interface{} {
	if msg.Command == "TAGMSG" {
		var id int
		fmt.Sscanf(string(msg.Tags["+vid"]), "%d", &id)
		return id
	}
	t := strings.Join(msg.Params[1:], " | ")
	if id, ok := m.texts[t]; ok {
		return id
	}
	return t
}

var relayTagVal = map[string]string{"time": "2020-03-04T05:06:07.089Z", "account": "acc;1", "+x": "va lue"}

func tagPrefix(tags []string, id int, withID bool) string {
	t := irc.Tags{}
	for _, k := range tags {
		t[k] = relayTagVal[k]
	}
	if withID {
		t["+vid"] = fmt.Sprint(id)
	}
	if len(t) == 0 {
		return ""
	}
	return "@" + t.String() + " "
}

// shownTags lists the tags of a message in a fixed order; a tag the sender
// set with a wrong value is reported with its value.
func shownTags(msg *irc.Message, sent map[string]bool) []string {
	l := []string{}
	for _, k := range []string{"time", "account", "+x"} {
		v, ok := msg.Tags[k]
		if !ok {
			continue
		}
		if sent[k] && string(v) != relayTagVal[k] {
			l = append(l, k+"="+string(v))
		} else {
			l = append(l, k)
		}
	}
	var extra []string
	for k := range msg.Tags {
		if k != "time" && k != "account" && k != "+x" && k != "+vid" && k != "batch" {
			extra = append(extra, k)
		}
	}
	sort.Strings(extra)
	return append(l, extra...)
}

func (m *relay) take() map[string]interface{} {
	return m.takeSent(nil)
}

func (m *relay) takeSent(sent map[string]map[string]bool) map[string]interface{} {
	cl := map[string]interface{}{}
	for name, p := range m.w.Clients {
		l := [][]interface{}{}
		for _, msg := range p.Take() {
			switch msg.Command {
			case "PRIVMSG", "NOTICE", "TAGMSG":
				if msg.Prefix.Name == "BouncerServ" || len(msg.Params) == 0 {
					continue
				}
				src := msg.Prefix.Name
				switch src {
				case "alice", "bea":
					src = "me"
				case "up.example":
					src = "server"
				}
				tgt := msg.Params[0]
				if tgt == "alice" || tgt == "bea" {
					tgt = "me"
				}
				id := m.id(msg)
				l = append(l, []interface{}{msg.Command, src, tgt, id, shownTags(msg, sent[fmt.Sprint(id)])})
			case "FAIL", "400", "401", "404", "421":
				l = append(l, []interface{}{"refused"})
			}
		}
		cl[name] = l
	}
	up := map[string]interface{}{}
	for name, n := range m.w.Nets {
		uc := n.Cur()
		if uc == nil {
			continue
		}
		l := [][]interface{}{}
		for _, msg := range uc.Take() {
			switch msg.Command {
			case "PRIVMSG", "NOTICE", "TAGMSG":
				tags := []string{}
				for _, k := range shownTags(msg, nil) {
					if k != "label" {
						tags = append(tags, k)
					}
				}
				l = append(l, []interface{}{msg.Command, msg.Params[0], m.id(msg), tags})
			}
		}
		up[name] = l
	}
	return map[string]interface{}{"cl": cl, "up": up}
}

func (m *relay) Do(st Step) (interface{}, error) {
	w := m.w
	sent := make(map[string]map[string]bool)
	switch st.Str("op") {
	case "connect":
		c := st.Str("c")
		n := m.netOf.Str(c)
		user, net := "alice", ""
		switch n {
		case "A1":
			net = "n1"
		case "A2":
			net = "n2"
		case "B1":
			user, net = "bea", "n1"
		}
		if _, err := w.Connect(Login{Key: c, User: user, Net: net, Client: c, Caps: m.req.Strs(c)}); err != nil {
			return nil, err
		}
	case "disconnect":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "down":
		n := w.Nets[st.Str("n")]
		n.mu.Lock()
		n.Hold = true
		n.mu.Unlock()
		k := n.NumConns()
		n.Cur().conn.Close()
		if _, err := n.WaitReady(k); err != nil {
			return nil, err
		}
	case "up":
		n := w.Nets[st.Str("n")]
		n.mu.Lock()
		n.Hold = false
		n.mu.Unlock()
		n.Cur().SendWelcome()
	case "upmsgs":
		uc := w.Nets[st.Str("n")].Up()
		var lines []string
		for _, e := range st.List("msgs") {
			f := toList(e)
			cmd, src, tgt, id := f[0].(string), f[1].(string), f[2].(string), int(f[3].(float64))
			tags := toStrs(f[4])
			switch src {
			case "bob":
				src = "bob!b@bob.example"
			case "me":
				src = uc.prefix()
			case "server":
				src = "up.example"
			}
			if tgt == "me" {
				tgt = uc.Nick
			}
			line := tagPrefix(tags, id, true) + ":" + src + " " + cmd + " " + tgt
			if cmd != "TAGMSG" {
				line += " :" + m.text(id)
			}
			set := map[string]bool{}
			for _, t := range tags {
				set[t] = true
			}
			sent[fmt.Sprint(id)] = set
			lines = append(lines, line)
		}
		uc.Send(lines...)
	case "send":
		p := w.Clients[st.Str("c")]
		id := st.Int("id")
		set := map[string]bool{}
		for _, t := range st.Strs("tags") {
			set[t] = true
		}
		sent[fmt.Sprint(id)] = set
		line := tagPrefix(st.Strs("tags"), id, st.Str("cmd") == "TAGMSG") + st.Str("cmd") + " " + strings.Join(st.Strs("tgts"), ",")
		if st.Str("cmd") != "TAGMSG" {
			line += " :" + m.text(id)
		}
		p.Send(line)
	default:
		return nil, fmt.Errorf("unknown op %q", st.Str("op"))
	}
	if err := w.Sync(); err != nil {
		return m.takeSent(sent), err
	}
	return m.takeSent(sent), nil
}
