package main

import (
	"context"
	"fmt"
	"path/filepath"
	"strings"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// backlog replays Backlog.tla: delivery receipts and backlog.
type backlog struct {
	w     *World
	net   *FakeNet
	req   Step
	names Step
	store string
	pings map[string][]string
	nblip int
	cur   string // name of the network
}

func init() {
	modules["backlog"] = func(init Step) (Module, error) {
		m := &backlog{w: NewWorld(), req: init.Map("req"), names: init.Map("names"), store: init.Str("store"), pings: make(map[string][]string), cur: "n1"}
		m.w.SetStore(m.store)
		u := m.w.AddUser("alice", false)
		m.net = NewFakeNet("N")
		m.net.Caps = append(extraCaps(), "message-tags", "server-time")
		rec := m.w.AddNet(u, m.net, "n1")
		for _, ch := range []string{"#a", "#b"} {
			if err := m.w.DB.StoreChannel(context.Background(), rec.ID, &database.Channel{Name: ch}); err != nil {
				fatal("failed to store channel: %v", err)
			}
		}
		m.w.Start()
		return m, m.up()
	}
}

// SetStore selects the message store.
func (w *World) SetStore(store string) {
	w.Cfg.MsgStoreDriver = store
	if store == "fs" {
		w.Cfg.MsgStorePath = filepath.Join(w.Dir, "logs")
	}
}

func (m *backlog) up() error {
	if _, err := m.net.WaitUp(); err != nil {
		return err
	}
	if err := m.w.Sync(); err != nil {
		return err
	}
	for _, c := range m.w.Clients {
		c.Take()
	}
	return nil
}

func (m *backlog) ServerLog() string { return m.w.logBuf.String() }
func (m *backlog) Close()            { m.w.Destroy() }

func (m *backlog) take() map[string]interface{} {
	out := map[string]interface{}{}
	for name, p := range m.w.Clients {
		l := [][]interface{}{}
		batches := map[string]string{}
		byBuf := map[string][][]interface{}{}
		inBatch := false
		for _, msg := range p.Take() {
			switch msg.Command {
			case "BATCH":
				if strings.HasPrefix(msg.Params[0], "+") && len(msg.Params) > 2 && msg.Params[1] == "chathistory" {
					batches[msg.Params[0][1:]] = strings.ToLower(msg.Params[2])
				}
			case "PING":
				if strings.HasPrefix(msg.Params[0], "soju-msgid-") {
					m.pings[name] = append(m.pings[name], msg.Params[0])
				}
			case "PRIVMSG", "NOTICE":
				if msg.Prefix.Name == "BouncerServ" {
					continue
				}
				var id int
				var buf string
				fmt.Sscanf(msg.Params[1], "m%d in %s", &id, &buf)
				tgt := strings.ToLower(msg.Params[0])
				if tgt == "alice" {
					tgt = strings.ToLower(msg.Prefix.Name)
				}
				if tgt != buf {
					buf = tgt + "!" + buf
				}
				if ref, ok := msg.Tags["batch"]; ok {
					inBatch = true
					if batches[string(ref)] != buf {
						buf = "batch " + batches[string(ref)] + "!" + buf
					}
				} else if inBatch {
					buf = "outside batch!" + buf
				}
				if m.req.Strs(name) != nil && contains(m.req.Strs(name), "server-time") && msg.Tags["time"] == "" {
					buf = "no time!" + buf
				}
				if isBacklogStep {
					byBuf[buf] = append(byBuf[buf], []interface{}{buf, id})
				} else {
					l = append(l, []interface{}{buf, id})
				}
			}
		}
		for _, b := range []string{"#a", "#b", "bob", "carol"} {
			l = append(l, byBuf[b]...)
			delete(byBuf, b)
		}
		for _, e := range byBuf {
			l = append(l, e...)
		}
		out[name] = l
	}
	return out
}

var isBacklogStep bool

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func (m *backlog) Do(st Step) (interface{}, error) {
	w := m.w
	isBacklogStep = false
	b := st.Str("b")
	shownB := b
	if st.Bool("upper") {
		shownB = strings.ToUpper(b)
	}
	text := fmt.Sprintf("m%d in %s hello: world", st.Int("id"), b)
	switch st.Str("op") {
	case "connect":
		c := st.Str("c")
		m.pings[c] = nil
		if _, err := w.Connect(Login{Key: c, User: "alice", Net: m.cur, Client: m.names.Str(c), Caps: m.req.Strs(c)}); err != nil {
			return nil, err
		}
		isBacklogStep = true
	case "disconnect":
		m.pings[st.Str("c")] = nil
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "upmsg":
		uc := m.net.Up()
		if isChan(b) {
			uc.Sendf(":bob!b@bob.example %s %s :%s", st.Str("cmd"), shownB, text)
		} else {
			uc.Sendf(":%s!b@bob.example %s %s :%s", shownB, st.Str("cmd"), uc.Nick, text)
		}
	case "send":
		w.Clients[st.Str("c")].Sendf("PRIVMSG %s :%s", shownB, text)
	case "ack":
		c := st.Str("c")
		j := st.Int("j")
		if j > len(m.pings[c]) {
			return nil, fmt.Errorf("client %v was asked to acknowledge %d messages, expected at least %d", c, len(m.pings[c]), j)
		}
		for _, t := range m.pings[c][:j] {
			w.Clients[c].Send("PONG " + t)
		}
		m.pings[c] = m.pings[c][j:]
	case "kick":
		uc := m.net.Up()
		if st.Str("how") == "KICK" {
			uc.Sendf(":bob!b@bob.example KICK %s %s :out", b, uc.Nick)
		} else {
			uc.Sendf(":%s PART %s", uc.prefix(), b)
		}
	case "return":
		uc := m.net.Up()
		if st.Str("how") == "KICK" {
			uc.Sendf(":bob!b@bob.example INVITE %s %s", uc.Nick, b)
		} else {
			uc.SendJoin(b)
		}
	case "blip":
		m.nblip++
		k := m.net.NumConns()
		switch st.Str("how") {
		case "drop":
			m.net.Cur().conn.Close()
		default:
			p := w.Dial("admin")
			p.Send("PASS pw", "NICK alice", "USER alice/"+m.cur+"@admin 0 * :x")
			if _, err := p.WaitMsg(func(msg *irc.Message) bool { return msg.Command == "001" }); err != nil {
				return nil, err
			}
			if st.Str("how") == "rename" {
				m.cur = fmt.Sprintf("n%d", m.nblip+1)
				p.Sendf("PRIVMSG BouncerServ :network update -name %s", m.cur)
			} else {
				p.Sendf("PRIVMSG BouncerServ :network update -realname r%d", m.nblip)
			}
			p.Sync()
			if err := w.Disconnect("admin"); err != nil {
				return nil, err
			}
		}
		if _, err := m.net.WaitConn(k); err != nil {
			return nil, err
		}
		if _, err := m.net.WaitUp(); err != nil {
			return nil, err
		}
	case "restart":
		k := m.net.NumConns()
		if err := w.Restart(); err != nil {
			return nil, err
		}
		if _, err := m.net.WaitConn(k); err != nil {
			return nil, err
		}
		if _, err := m.net.WaitUp(); err != nil {
			return nil, err
		}
		m.pings = make(map[string][]string)
	}
	if err := w.Sync(); err != nil {
		return m.take(), err
	}
	return m.take(), nil
}
