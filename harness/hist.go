package main

import (
	"context"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// histMod replays Hist.tla: CHATHISTORY and SEARCH.
type histMod struct {
	w     *World
	nets  map[string]*FakeNet
	names map[string]string // current name of each network
	play  bool
	batch bool
	base  time.Time
	nren  int

	mu       sync.Mutex
	names353 map[string]map[string][]string // net -> channel -> members
	stamp    time.Time
}

const timeLayout = "2006-01-02T15:04:05.000Z"

func init() {
	modules["hist"] = func(init Step) (Module, error) {
		// The file-system store splits its files at local midnight.
		time.Local = time.FixedZone("verif", init.Int("tz")*60)
		m := &histMod{w: NewWorld(), nets: map[string]*FakeNet{}, names: map[string]string{}, play: init.Bool("play"), batch: init.Bool("batch"),
			names353: map[string]map[string][]string{}}
		y, mo, d := time.Now().Date()
		m.base = time.Date(y, mo, d-60, 0, 0, 0, 0, time.Local)
		m.w.SetStore(init.Str("store"))
		u := m.w.AddUser("alice", false)
		for _, name := range []string{"n1", "n2"} {
			name := name
			n := NewFakeNet(name)
			n.Caps = []string{"message-tags", "server-time", "echo-message", "labeled-response", "batch"}
			n.Handler = m.handle
			m.names353[name] = map[string][]string{"#chan": {"Bob", "Eve_"}, "#two": {"Bob", "Eve_"}}
			n.Names = func(ch string) []string {
				m.mu.Lock()
				defer m.mu.Unlock()
				return m.names353[name][strings.ToLower(ch)]
			}
			m.nets[name] = n
			m.names[name] = name
			rec := m.w.AddNet(u, n, name)
			for _, ch := range []string{"#Chan", "#two"} {
				if err := m.w.DB.StoreChannel(context.Background(), rec.ID, &database.Channel{Name: ch}); err != nil {
					fatal("failed to store channel: %v", err)
				}
			}
		}
		m.stamp = m.at(1)
		m.w.Start()
		return m, m.up()
	}
}

func (m *histMod) ServerLog() string { return m.w.logBuf.String() }
func (m *histMod) Close()            { m.w.Destroy() }

// at converts a tick to a date: four ticks a day, the first at midnight.
func (m *histMod) at(tick int) time.Time { return m.base.Add(time.Duration(tick) * 6 * time.Hour) }

func (m *histMod) bound(b int) string {
	t := m.at(b / 2)
	if b%2 == 1 {
		t = t.Add(3 * time.Hour)
	}
	return t.UTC().Format(timeLayout)
}

func (m *histMod) tick(s string) int {
	t, err := time.Parse(timeLayout, s)
	if err != nil {
		return -1
	}
	d := t.Sub(m.base)
	if d%(6*time.Hour) != 0 {
		return -2
	}
	return int(d / (6 * time.Hour))
}

// handle answers what depends on the date and echoes messages with it.
func (m *histMod) handle(uc *UpConn, msg *irc.Message) bool {
	m.mu.Lock()
	stamp := m.stamp.UTC().Format(timeLayout)
	m.mu.Unlock()
	switch msg.Command {
	case "PRIVMSG", "NOTICE":
		uc.Sendf("@time=%s;label=%s :%s %s %s :%s", stamp, msg.Tags["label"], uc.prefix(), msg.Command, msg.Params[0], msg.Params[1])
		return true
	case "JOIN":
		for _, ch := range strings.Split(msg.Params[0], ",") {
			names := append([]string{uc.Nick}, uc.net.Names(ch)...)
			uc.Send(fmt.Sprintf("@time=%s :%s JOIN %s", stamp, uc.prefix(), ch),
				fmt.Sprintf(":%s 353 %s = %s :%s", uc.net.Host, uc.Nick, ch, strings.Join(names, " ")),
				fmt.Sprintf(":%s 366 %s %s :End of /NAMES list", uc.net.Host, uc.Nick, ch))
		}
		return true
	}
	return false
}

func (m *histMod) up() error {
	for _, n := range m.nets {
		if _, err := n.WaitUp(); err != nil {
			return err
		}
	}
	for _, name := range []string{"n1", "n2"} {
		if c := m.w.Clients[name]; c != nil && !c.Closed() {
			continue
		}
		caps := []string{"server-time", "message-tags", "echo-message", "draft/chathistory"}
		if m.batch {
			caps = append(caps, "batch")
		}
		if _, err := m.w.Connect(Login{Key: name, User: "alice", Net: m.names[name], Caps: caps}); err != nil {
			return err
		}
		if m.play {
			// advertised once the network is known
			m.w.Clients[name].Send("CAP REQ :draft/event-playback")
		}
	}
	if err := m.w.Sync(); err != nil {
		return err
	}
	for _, c := range m.w.Clients {
		c.Take()
	}
	return nil
}

func chanOrNick(s string) string {
	// rfc1459 case folding
	s = strings.ToLower(s)
	return strings.NewReplacer("{", "[", "}", "]", "\\", "|", "~", "^").Replace(s)
}

func upperOf(s string) string {
	return strings.NewReplacer("[", "{", "]", "}").Replace(strings.ToUpper(s))
}

// rows reads the answer to a history request.
func (m *histMod) rows(p *Peer, typ string) map[string]interface{} {
	out := map[string]interface{}{}
	rows := []map[string]interface{}{}
	targets := []map[string]interface{}{}
	open, closed := "", false
	for _, msg := range p.Take() {
		switch msg.Command {
		case "BATCH":
			if strings.HasPrefix(msg.Params[0], "+") {
				if msg.Params[1] != typ || open != "" {
					out["badbatch"] = js(msg.Params)
				}
				open = msg.Params[0][1:]
				if len(msg.Params) > 2 {
					out["tgt"] = msg.Params[2]
				}
			} else {
				if msg.Params[0][1:] != open {
					out["badbatch"] = js(msg.Params)
				}
				closed = true
			}
			continue
		case "FAIL":
			out["fail"] = true
			continue
		}
		want := ""
		if m.batch {
			want = open
		}
		if msg.Tags["batch"] != want || closed || (m.batch && open == "") {
			out["outside"] = msg.String()
		}
		if msg.Command == "CHATHISTORY" {
			targets = append(targets, map[string]interface{}{"name": msg.Params[1], "t": m.tick(msg.Params[2])})
			continue
		}
		k, x, to := msg.Command, "", ""
		if len(msg.Params) > 0 {
			to = chanOrNick(msg.Params[0])
		}
		last := func(i int) string {
			if len(msg.Params) > i {
				return msg.Params[i]
			}
			return ""
		}
		switch k {
		case "PRIVMSG", "NOTICE":
			x = last(1)
			if strings.HasPrefix(x, "\x01ACTION ") && strings.HasSuffix(x, "\x01") {
				k, x = "ACTION", x[8:len(x)-1]
			}
		case "PART", "TOPIC":
			x = last(1)
		case "QUIT":
			x, to = last(0), ""
		case "NICK":
			x, to = last(0), ""
		case "KICK":
			x = last(1) + " " + last(2)
		case "MODE":
			x = strings.Join(msg.Params[1:], " ")
		}
		rows = append(rows, map[string]interface{}{"k": k, "f": msg.Prefix.Name, "x": x, "to": to, "t": m.tick(msg.Tags["time"])})
	}
	if m.batch && open != "" && !closed {
		out["badbatch"] = "never closed"
	}
	if typ == "draft/chathistory-targets" {
		out["targets"] = targets
	} else {
		out["rows"] = rows
	}
	return out
}

func (m *histMod) setStamp(t int) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.stamp = m.at(t)
	return m.stamp.UTC().Format(timeLayout)
}

func (m *histMod) Do(st Step) (interface{}, error) {
	w := m.w
	name := st.Str("net")
	c := w.Clients[name]
	var uc *UpConn
	if n := m.nets[name]; n != nil {
		uc = n.Up()
	}
	tgt := st.Str("tgt")
	if st.Bool("upper") {
		tgt = upperOf(tgt)
	}
	settle := func() (interface{}, error) {
		if err := w.Sync(); err != nil {
			return nil, err
		}
		for _, c := range w.Clients {
			c.Take()
		}
		return nil, nil
	}
	switch op := st.Str("op"); op {
	case "say":
		ts := m.setStamp(st.Int("t"))
		cmd, text := st.Str("kind"), st.Str("x")
		if cmd == "ACTION" {
			cmd, text = "PRIVMSG", "\x01ACTION "+text+"\x01"
		}
		if st.Bool("self") {
			c.Sendf("%s %s :%s", cmd, st.Str("to"), text)
		} else {
			uc.Sendf("@time=%s :%s!u@h %s %s :%s", ts, st.Str("f"), cmd, st.Str("to"), text)
		}
		return settle()
	case "event":
		ts := m.setStamp(st.Int("t"))
		f, ch, r := st.Str("f"), st.Str("ch"), st.Str("r")
		pre := fmt.Sprintf("@time=%s :%s!u@h ", ts, f)
		reason := func() string {
			if r == "" {
				return ""
			}
			return " :" + r
		}
		switch st.Str("kind") {
		case "JOIN":
			uc.Send(pre + "JOIN " + ch)
		case "PART":
			uc.Send(pre + "PART " + ch + reason())
		case "QUIT":
			uc.Send(pre + "QUIT" + reason())
		case "KICK":
			uc.Send(pre + "KICK " + ch + " eve2" + reason())
		case "TOPIC":
			uc.Send(pre + "TOPIC " + ch + " :" + r)
		case "MODE":
			uc.Send(pre + "MODE " + ch + " " + st.Str("x"))
		}
		return settle()
	case "nick":
		ts := m.setStamp(st.Int("t"))
		for _, n := range st.Strs("nets") {
			m.nets[n].Up().Sendf("@time=%s :%s!u@h NICK %s", ts, st.Str("f"), st.Str("new"))
		}
		return settle()
	case "query":
		var err error
		switch sub := st.Str("sub"); sub {
		case "LATEST*":
			c.Sendf("CHATHISTORY LATEST %s * %d", tgt, st.Int("lim"))
		case "BETWEEN":
			c.Sendf("CHATHISTORY BETWEEN %s timestamp=%s timestamp=%s %d", tgt, m.bound(st.Int("b0")), m.bound(st.Int("b1")), st.Int("lim"))
		default:
			c.Sendf("CHATHISTORY %s %s timestamp=%s %d", sub, tgt, m.bound(st.Int("b0")), st.Int("lim"))
		}
		if err = c.Sync(); err != nil {
			return nil, err
		}
		out := m.rows(c, "chathistory")
		if m.batch {
			if s, ok := out["tgt"].(string); ok {
				out["tgt"] = chanOrNick(s)
			}
		} else {
			out["tgt"] = st.Str("tgt")
		}
		return out, nil
	case "targets":
		c.Sendf("CHATHISTORY TARGETS timestamp=%s timestamp=%s %d", m.bound(st.Int("b0")), m.bound(st.Int("b1")), st.Int("lim"))
		if err := c.Sync(); err != nil {
			return nil, err
		}
		return m.rows(c, "draft/chathistory-targets"), nil
	case "targetsfs":
		c.Sendf("CHATHISTORY TARGETS timestamp=2000-01-01T00:00:00.000Z timestamp=2100-01-01T00:00:00.000Z 1000")
		if err := c.Sync(); err != nil {
			return nil, err
		}
		out := m.rows(c, "draft/chathistory-targets")
		names := []string{}
		for _, t := range out["targets"].([]map[string]interface{}) {
			names = append(names, t["name"].(string))
		}
		delete(out, "targets")
		out["names"] = names
		return out, nil
	case "search":
		attrs := irc.Tags{"in": tgt}
		if s := st.Str("from"); s != "" {
			attrs["from"] = s
		}
		if s := st.Str("text"); s != "" {
			attrs["text"] = s
		}
		if b := st.Int("b0"); b >= 0 {
			attrs["after"] = m.bound(b)
		}
		if b := st.Int("b1"); b >= 0 {
			attrs["before"] = m.bound(b)
		}
		if l := st.Int("lim"); l >= 0 {
			attrs["limit"] = strconv.Itoa(l)
		}
		c.Sendf("SEARCH :%s", attrs.String())
		if err := c.Sync(); err != nil {
			return nil, err
		}
		return m.rows(c, "soju.im/search"), nil
	case "bad":
		t := "timestamp=" + m.bound(3)
		switch st.Str("what") {
		case "limit1001":
			c.Sendf("CHATHISTORY BEFORE #chan %s 1001", t)
		case "limit-1":
			c.Sendf("CHATHISTORY BEFORE #chan %s -1", t)
		case "limitx":
			c.Sendf("CHATHISTORY AFTER #chan %s x", t)
		case "bound":
			c.Sendf("CHATHISTORY BEFORE #chan timestamp=yesterday 10")
		case "bound2":
			c.Sendf("CHATHISTORY BETWEEN #chan %s * 10", t)
		case "sub":
			c.Sendf("CHATHISTORY NEARBY #chan %s 10", t)
		case "searchlimit":
			c.Sendf("SEARCH in=#chan;limit=0")
		case "searchin":
			c.Sendf("SEARCH text=apple")
		case "searchbound":
			c.Sendf("SEARCH in=#chan;after=yesterday")
		}
		if err := c.Sync(); err != nil {
			return nil, err
		}
		return m.rows(c, "none"), nil
	case "restart", "crash", "rename":
		m.mu.Lock()
		for n, chs := range st.Map("inch") {
			for ch, l := range chs.(map[string]interface{}) {
				m.names353[n][ch] = toStrs(l)
			}
		}
		m.mu.Unlock()
		switch op {
		case "restart", "crash":
			counts := map[string]int{}
			for k, n := range m.nets {
				counts[k] = n.NumConns()
			}
			f := w.Restart
			if op == "crash" {
				f = w.Crash
			}
			if err := f(); err != nil {
				return nil, err
			}
			for k, n := range m.nets {
				if _, err := n.WaitConn(counts[k]); err != nil {
					return nil, err
				}
			}
		case "rename":
			m.nren++
			k := m.nets[name].NumConns()
			newName := fmt.Sprintf("%s-%d", name, m.nren)
			c.Sendf("PRIVMSG BouncerServ :network update %s -name %s", m.names[name], newName)
			m.names[name] = newName
			if _, err := m.nets[name].WaitConn(k); err != nil {
				return nil, err
			}
		}
		return nil, m.up()
	}
	return nil, nil
}
