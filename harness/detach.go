package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// detach replays Detach.tla: detached channels.
type detach struct {
	w     *World
	net   *FakeNet
	netID int64

	mu   sync.Mutex
	late map[string]bool
}

func init() {
	modules["detach"] = func(init Step) (Module, error) {
		m := &detach{w: NewWorld(), late: make(map[string]bool)}
		m.w.SetStore(init.Str("store"))
		u := m.w.AddUser("alice", false)
		m.net = NewFakeNet("N")
		m.net.Caps = append([]string{}, extraCaps()...)
		m.net.Handler = m.handle
		rec := m.w.AddNet(u, m.net, "n1")
		m.netID = rec.ID
		for _, ch := range []string{"#a", "#b"} {
			if err := m.w.DB.StoreChannel(context.Background(), rec.ID, &database.Channel{Name: ch}); err != nil {
				fatal("failed to store channel: %v", err)
			}
		}
		m.w.Start()
		if _, err := m.net.WaitUp(); err != nil {
			return m, err
		}
		return m, m.w.Sync()
	}
}

func (m *detach) ServerLog() string { return m.w.logBuf.String() }
func (m *detach) Close()            { m.w.Destroy() }

func (m *detach) handle(uc *UpConn, msg *irc.Message) bool {
	if msg.Command != "JOIN" {
		return false
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, ch := range strings.Split(msg.Params[0], ",") {
		if m.late[ch] {
			uc.Send(fmt.Sprintf(":%s JOIN %s", uc.prefix(), ch),
				fmt.Sprintf(":%s 353 %s = %s :%s bob", m.net.Host, uc.Nick, ch, uc.Nick))
		} else {
			uc.SendJoin(ch)
		}
	}
	return true
}

func (m *detach) take() (interface{}, error) {
	cl := map[string]map[string][][]interface{}{}
	for name, p := range m.w.Clients {
		chs := map[string][][]interface{}{}
		add := func(ch string, ev ...interface{}) {
			ch = strings.ToLower(ch)
			chs[ch] = append(chs[ch], ev)
		}
		for _, msg := range p.Take() {
			self := msg.Prefix.Name == "alice"
			switch msg.Command {
			case "PING":
				if name == "c1" && strings.HasPrefix(msg.Params[0], "soju-msgid-") {
					p.Send("PONG " + msg.Params[0])
				}
			case "JOIN", "PART":
				if self {
					add(msg.Params[0], msg.Command)
				} else {
					add(msg.Params[0], msg.Command, msg.Prefix.Name)
				}
			case "TOPIC", "MODE":
				if isChan(msg.Params[0]) {
					add(msg.Params[0], msg.Command, msg.Prefix.Name)
				}
			case "366":
				add(msg.Params[1], "names")
			case "PRIVMSG", "NOTICE":
				if msg.Prefix.Name == "BouncerServ" {
					var what, ch, from string
					var id int
					if n, _ := fmt.Sscanf(msg.Params[1], "%s in %s <%s m%d", &what, &ch, &from, &id); n == 4 && strings.HasSuffix(from, ">") {
						ch = strings.TrimSuffix(ch, ":")
						if from != "bob>" {
							what += " from " + from
						}
						add(ch, "relay", id, what)
					}
					continue
				}
				var id int
				fmt.Sscanf(msg.Params[1], "m%d", &id)
				add(msg.Params[0], "msg", id)
			}
		}
		cl[name] = chs
	}
	// acknowledgements must be processed before the next step
	if p := m.w.Clients["c1"]; p != nil {
		if err := p.Sync(); err != nil {
			return nil, err
		}
	}
	db := []string{}
	chs, err := m.w.DB.ListChannels(context.Background(), m.netID)
	if err != nil {
		return nil, err
	}
	for _, ch := range chs {
		if ch.Detached {
			db = append(db, strings.ToLower(ch.Name))
		}
	}
	return map[string]interface{}{"cl": cl, "db": db}, nil
}

// parts waits until a client was shown that it left a channel n times.
func (m *detach) parts(c *Peer, ch string, n int) error {
	ok := c.wait(3*time.Second, func() bool {
		k := 0
		for _, msg := range c.inbox {
			if msg.Command == "PART" && strings.EqualFold(param(msg, 0), ch) && msg.Prefix != nil && msg.Prefix.Name == "alice" {
				k++
			}
		}
		return k >= n || c.closed
	})
	if !ok {
		return fmt.Errorf("%s isn't detached by itself", ch)
	}
	return nil
}

var hlTexts = []string{"m%d hey alice!", "m%d alice: hi", "m%d (alice)", "m%d ping,alice"}
var plainTexts = []string{"m%d hello", "m%d malice aforethought", "m%d alices", "m%d http://alice.example"}

func (m *detach) Do(st Step) (interface{}, error) {
	w := m.w
	ch := st.Str("ch")
	shown := ch
	if st.Bool("upper") {
		shown = strings.ToUpper(ch)
	}
	id := st.Int("id")
	c := w.Clients[st.Str("c")]
	switch st.Str("op") {
	case "connect":
		if _, err := w.Connect(Login{Key: st.Str("c"), User: "alice", Net: "n1", Client: st.Str("c")}); err != nil {
			return nil, err
		}
	case "disconnect":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "detach":
		switch st.Str("how") {
		case "part":
			c.Sendf("PART %s :detach", ch)
		case "Part":
			c.Sendf("PART %s Detach", strings.ToUpper(ch))
		case "service":
			c.Sendf("PRIVMSG BouncerServ :channel update %s -detached true", ch)
		}
	case "attach":
		if st.Str("how") == "join" {
			c.Sendf("JOIN %s", ch)
		} else {
			c.Sendf("PRIVMSG BouncerServ :channel update %s -detached false", ch)
		}
	case "set":
		opt := "-relay-detached"
		if st.Str("which") == "reatt" {
			opt = "-reattach-on"
		}
		c.Sendf("PRIVMSG BouncerServ :channel update %s %s %s", ch, opt, st.Str("f"))
	case "wrong":
		args := strings.ReplaceAll(strings.ReplaceAll(st.Str("w"), "@@", fmt.Sprint(st.Bool("d"))), "@", st.Str("f"))
		c.Sendf("PRIVMSG BouncerServ :channel update %s %s", ch, args)
	case "auto":
		c.Sendf("PRIVMSG BouncerServ :channel update %s -detach-after 30ms -detach-on %s", ch, st.Str("f"))
		n := 0
		if !st.Bool("was") {
			n++
		}
		if err := m.parts(c, ch, n); err != nil {
			return nil, err
		}
		if st.Bool("twice") {
			if err := c.Sync(); err != nil {
				return nil, err
			}
			c.Sendf("JOIN %s", ch)
			if err := m.parts(c, ch, n+1); err != nil {
				return nil, err
			}
		}
		c.Sendf("PRIVMSG BouncerServ :channel update %s -detach-after 0", ch)
	case "upmsg":
		t := plainTexts[id%len(plainTexts)]
		if st.Bool("hl") {
			t = hlTexts[id%len(hlTexts)]
		}
		cmd := "PRIVMSG"
		if id%3 == 0 {
			cmd = "NOTICE"
		}
		m.net.Up().Sendf(":bob!b@bob.example %s %s :"+t, cmd, shown, id)
	case "send":
		c.Sendf("PRIVMSG %s :m%d from alice", ch, id)
	case "other":
		uc := m.net.Up()
		switch st.Str("what") {
		case "JOIN":
			uc.Sendf(":bob!b@bob.example JOIN %s", ch)
		case "TOPIC":
			uc.Sendf(":bob!b@bob.example TOPIC %s :alice rules", ch)
		case "MODE":
			uc.Sendf(":bob!b@bob.example MODE %s +m", ch)
		}
	case "blip":
		m.mu.Lock()
		m.late = make(map[string]bool)
		for _, l := range st.Strs("late") {
			m.late[l] = true
		}
		m.mu.Unlock()
		k := m.net.NumConns()
		m.net.Cur().conn.Close()
		if _, err := m.net.WaitConn(k); err != nil {
			return nil, err
		}
		if _, err := m.net.WaitUp(); err != nil {
			return nil, err
		}
	case "latenames":
		uc := m.net.Up()
		uc.Sendf(":%s 366 %s %s :End of /NAMES list", m.net.Host, uc.Nick, ch)
	case "restart":
		m.mu.Lock()
		m.late = make(map[string]bool)
		m.mu.Unlock()
		k := m.net.NumConns()
		if err := w.Restart(); err != nil {
			return nil, err
		}
		if _, err := m.net.WaitConn(k); err != nil {
			return nil, err
		}
		if _, err := m.net.WaitUp(); err != nil {
			return nil, err
		}
	}
	if err := w.Sync(); err != nil {
		return nil, err
	}
	return m.take()
}
