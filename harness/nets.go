package main

import (
	"context"
	"fmt"
	"net"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

func init() { modules["nets"] = newNets }

// netsClient is what a client knows.
type netsClient struct {
	kind string
	nick string
	view map[int]map[string]string // by real ID
}

type nets struct {
	w     *World
	users map[string]*database.User
	ids   map[int]int // real ID -> ID in the specification
	snap  map[string][]database.Network
	cls   map[string]*netsClient
	noise int
	dead  string // address which refuses connections
	nq    int
}

var netsWatch = map[string]string{"alice": "wa", "root": "wr"}

func newNets(init Step) (Module, error) {
	w := NewWorld()
	m := &nets{w: w, users: map[string]*database.User{}, ids: map[int]int{}, cls: map[string]*netsClient{}}
	w.Cfg.MaxUserNetworks = init.Int("lim")
	for _, name := range []string{"A", "B", "C", "U"} {
		var n *FakeNet
		if name == "U" {
			n = NewUnixNet(name, filepath.Join(scratchRoot, fmt.Sprintf("u%s.sock", filepath.Base(w.Dir))))
		} else {
			n = NewFakeNet(name)
		}
		if name == "B" || name == "C" {
			n.Caps = []string{"setname"}
		}
		n.Handler = func(uc *UpConn, msg *irc.Message) bool {
			if msg.Command == "SETNAME" {
				p := uc.prefix()
				uc.net.mu.Lock()
				uc.Realname = param(msg, 0)
				uc.net.mu.Unlock()
				uc.Sendf(":%s SETNAME :%s", p, param(msg, 0))
				return true
			}
			return false
		}
		w.Nets[name] = n
	}
	// An address where nobody listens.
	// It must not be a port another process may be given.
	m.dead = "irc+insecure://127.0.0.1:9"
	for _, name := range []string{"alice", "root"} {
		u := database.NewUser(name)
		u.Admin = name == "root"
		u.Nick = init.Map("unick").Str(name)
		u.Realname = init.Map("ureal").Str(name)
		if err := w.DB.StoreUser(context.Background(), u); err != nil {
			fatal("failed to store user: %v", err)
		}
		m.users[name] = u
	}
	rec := w.AddNet(m.users["alice"], w.Nets["A"], "n1")
	m.ids[int(rec.ID)] = 1
	w.Start()
	if _, err := w.Nets["A"].WaitUp(); err != nil {
		return m, err
	}
	return m, m.watch()
}

func (m *nets) ServerLog() string { return m.w.logBuf.String() }
func (m *nets) Close()            { m.w.Destroy() }

func (m *nets) watch() error {
	for u, c := range netsWatch {
		if err := m.connect(c, u, "notify", "", 0); err != nil {
			return err
		}
	}
	m.absorb()
	return nil
}

func (m *nets) addr(srv string) string {
	switch srv {
	case "X":
		return m.dead
	case "Y":
		return strings.Replace(m.dead, "127.0.0.1", "[::1]", 1)
	case "bad0":
		return "http://127.0.0.1:1"
	case "bad1":
		return "irc+insecure://"
	case "bad2":
		return "irc+insecure://127.0.0.1:1/path"
	case "bad3":
		return "irc+insecure://u:p@127.0.0.1:1"
	case "bad4":
		return "irc+insecure://127.0.0.1:1?q=1"
	case "bad5":
		return "irc+insecure://127.0.0.1:1#f"
	case "bad6":
		return "unix://"
	case "bad7":
		return "irc://127.0.0.1:1"
	}
	return m.w.Nets[srv].Addr
}

// name maps the names of the specification: "@A" is the address of A.
func (m *nets) name(s string) string {
	if strings.HasPrefix(s, "@") {
		return m.addr(s[1:])
	}
	return s
}

func (m *nets) unname(s string) string {
	if srv := m.unaddr(s); srv != "?" {
		return "@" + srv
	}
	return s
}

func (m *nets) unaddr(s string) string {
	for _, srv := range []string{"A", "B", "C", "U", "X", "Y"} {
		if m.addr(srv) == s {
			return srv
		}
	}
	return "?"
}

func (m *nets) realID(id int) int {
	for r, s := range m.ids {
		if s == id {
			return r
		}
	}
	return 100000 + id
}

func (m *nets) connect(c, user, kind, netw string, id int) error {
	caps := []string{"setname", "sasl"}
	switch kind {
	case "bn":
		caps = append(caps, "batch soju.im/bouncer-networks")
	case "notify":
		caps = append(caps, "batch soju.im/bouncer-networks", "soju.im/bouncer-networks-notify")
	}
	p := m.w.Dial(c)
	p.name = "client " + c
	lines := []string{"CAP LS 302"}
	for _, s := range caps {
		lines = append(lines, "CAP REQ :"+s)
	}
	lines = append(lines, "NICK conn-"+c, "USER "+user+" 0 * :Real", "AUTHENTICATE PLAIN")
	login := user
	if netw != "" {
		login += "/" + netw
	}
	lines = append(lines, "AUTHENTICATE "+plain("", login, "pw"))
	p.Send(lines...)
	if _, err := p.WaitMsg(func(msg *irc.Message) bool { return msg.Command == "903" }); err != nil {
		return err
	}
	if id != 0 {
		p.Sendf("BOUNCER BIND %d", id)
	}
	p.Send("CAP END")
	m.cls[c] = &netsClient{kind: kind, view: map[int]map[string]string{}}
	if _, err := p.WaitMsg(func(msg *irc.Message) bool { return msg.Command == "422" || msg.Command == "376" }); err != nil {
		return err
	}
	return p.Sync()
}

// absorb takes in what the clients were sent.
func (m *nets) absorb() map[string][]*irc.Message {
	out := map[string][]*irc.Message{}
	for c, p := range m.w.Clients {
		st := m.cls[c]
		if st == nil {
			continue
		}
		l := p.Take()
		out[c] = l
		for _, msg := range l {
			switch msg.Command {
			case "001":
				st.nick = param(msg, 0)
			case "NICK":
				if msg.Prefix.Name == st.nick {
					st.nick = param(msg, 0)
				}
			case "BOUNCER":
				if param(msg, 0) != "NETWORK" {
					break
				}
				id, _ := strconv.Atoi(param(msg, 1))
				if st.kind != "notify" {
					m.noise++
					break
				}
				if param(msg, 2) == "*" {
					delete(st.view, id)
					break
				}
				if st.view[id] == nil {
					st.view[id] = map[string]string{}
				}
				for k, v := range irc.ParseTags(param(msg, 2)) {
					st.view[id][k] = string(v)
				}
			}
		}
	}
	return out
}

func (m *nets) attrs(v map[string]string) map[string]interface{} {
	a := map[string]interface{}{}
	for k, s := range v {
		switch k {
		case "host", "port", "tls":
		case "error":
			if s != "" {
				s = "yes"
			}
			a[k] = s
		case "name":
			a[k] = m.unname(s)
		default:
			a[k] = s
		}
	}
	for _, k := range []string{"username", "error"} {
		if a[k] == nil {
			a[k] = ""
		}
	}
	a["addr"] = ""
	if v["host"] != "" {
		scheme := "irc+insecure://"
		if v["tls"] != "0" {
			scheme = "ircs://"
		}
		a["addr"] = m.unaddr(scheme + net.JoinHostPort(v["host"], v["port"]))
	}
	return a
}

func (m *nets) view(view map[int]map[string]string) []interface{} {
	l := []interface{}{}
	var real []int
	for id := range view {
		real = append(real, id)
	}
	sort.Ints(real)
	for _, id := range real {
		l = append(l, map[string]interface{}{"id": m.ids[id], "a": m.attrs(view[id])})
	}
	return l
}

func (m *nets) db() map[string]interface{} {
	out := map[string]interface{}{}
	m.snap = map[string][]database.Network{}
	for u, rec := range m.users {
		l, err := m.w.DB.ListNetworks(context.Background(), rec.ID)
		if err != nil {
			fatal("ListNetworks: %v", err)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
		m.snap[u] = l
		recs := []interface{}{}
		for _, n := range l {
			name := m.unname(n.Name)
			recs = append(recs, map[string]interface{}{
				"id": m.ids[int(n.ID)], "name": name, "srv": m.unaddr(n.Addr), "nick": n.Nick, "user": n.Username,
				"real": n.Realname, "pass": n.Pass, "cmds": n.ConnectCommands, "en": n.Enabled,
			})
		}
		out[u] = recs
	}
	return out
}

// fresh learns the identifier of a network just created.
func (m *nets) fresh(id int) {
	for _, rec := range m.users {
		l, err := m.w.DB.ListNetworks(context.Background(), rec.ID)
		if err != nil {
			fatal("ListNetworks: %v", err)
		}
		for _, n := range l {
			if _, ok := m.ids[int(n.ID)]; !ok {
				m.ids[int(n.ID)] = id
			}
		}
	}
}

func (m *nets) conns() (map[string]interface{}, map[string]interface{}) {
	out := map[string]interface{}{}
	pend := map[string]interface{}{}
	for name, n := range m.w.Nets {
		set := []interface{}{}
		np := 0
		for _, uc := range n.Live() {
			n.mu.Lock()
			reg, ready := uc.Registered, uc.ready()
			id := map[string]interface{}{"nick": uc.Nick, "user": uc.User, "real": uc.Realname, "pass": uc.Pass}
			n.mu.Unlock()
			if !reg {
				if ready {
					np++
				}
				continue
			}
			cmds := []string{}
			uc.Peer.mu.Lock()
			for _, msg := range uc.Peer.inbox {
				if msg.Command == "VCONN" {
					x := msg.Copy()
					x.Prefix = nil
					cmds = append(cmds, x.String())
				}
			}
			uc.Peer.mu.Unlock()
			id["cmds"] = cmds
			set = append(set, id)
		}
		out[name] = map[string]interface{}{"set": set}
		pend[name] = np
	}
	return out, pend
}

func (m *nets) release(s string) {
	n := m.w.Nets[s]
	n.mu.Lock()
	n.Hold = false
	n.mu.Unlock()
	for _, uc := range n.Live() {
		n.mu.Lock()
		ok := !uc.Registered && uc.ready()
		n.mu.Unlock()
		if ok {
			uc.SendWelcome()
		}
	}
}

// settle waits until what is expected is reached, or time has passed.
func (m *nets) settle(exp Step) (map[string][]*irc.Message, error) {
	all := map[string][]*irc.Message{}
	deadline := time.Now().Add(4 * time.Second)
	for {
		if err := m.w.Sync(); err != nil {
			return all, err
		}
		for c, l := range m.absorb() {
			all[c] = append(all[c], l...)
		}
		conns, pend := m.conns()
		ok := match(exp["conns"], norm(conns)) && match(exp["pending"], norm(pend))
		for u, c := range netsWatch {
			ok = ok && match(exp.Map("watch")[u], norm(m.view(m.cls[c].view)))
		}
		if ok {
			break
		}
		if time.Now().After(deadline) {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	if err := m.w.Sync(); err != nil {
		return all, err
	}
	for c, l := range m.absorb() {
		all[c] = append(all[c], l...)
	}
	return all, nil
}

func quoteArg(s string) string { return `"` + strings.ReplaceAll(s, `"`, `\"`) + `"` }

func (m *nets) flags(a Step) string {
	var sb strings.Builder
	add := func(k, v string) { fmt.Fprintf(&sb, " -%s %s", k, quoteArg(v)) }
	if s := a.Str("srv"); s != "~" {
		add("addr", m.addr(s))
	}
	if s := a.Str("name"); s != "~" {
		add("name", m.name(s))
	}
	for _, k := range [][2]string{{"nick", "nick"}, {"user", "username"}, {"real", "realname"}, {"pass", "pass"}} {
		if s := a.Str(k[0]); s != "~" {
			add(k[1], s)
		}
	}
	for _, s := range a.Strs("cmds") {
		if s != "~" {
			add("connect-command", s)
		}
	}
	if s := a.Str("en"); s != "~" {
		add("enabled", s)
	}
	if a.Bool("ign") {
		sb.WriteString(" -ignore-limit")
	}
	return sb.String()
}

func (m *nets) battrs(a Step, part bool) string {
	t := irc.Tags{}
	if s := a.Str("srv"); s == "bad" {
		t["host"] = "foo/bar"
	} else if s == "none" {
		t["host"] = ""
		t["port"] = "6667"
	} else if s != "~" {
		hostport := strings.TrimPrefix(m.addr(s), "irc+insecure://")
		host, port, _ := net.SplitHostPort(hostport)
		t["port"] = port
		if !part {
			t["host"] = host
			t["tls"] = "0"
		}
	}
	if s := a.Str("name"); s != "~" {
		t["name"] = m.name(s)
	}
	for _, k := range [][2]string{{"nick", "nickname"}, {"user", "username"}, {"real", "realname"}, {"pass", "pass"}} {
		if s := a.Str(k[0]); s != "~" {
			t[k[1]] = s
		}
	}
	if a.Bool("unk") {
		t["colour"] = "red"
	}
	return t.String()
}

func (m *nets) as(c, u, cmd string) string {
	if (c == "r1") != (u == "root") {
		return "user run " + u + " " + cmd
	}
	return cmd
}

var (
	netsReplyRe  = regexp.MustCompile(`^(?:created|updated|deleted) network "(.*)"$`)
	netsStatusRe = regexp.MustCompile(`^(\S+)(?: \((.*)\))? \[(.*?)\](?:: (.*))?$`)
)

func (m *nets) Do(st Step) (interface{}, error) {
	exp := st.Map("exp")
	c := st.Str("c")
	p := m.w.Clients[c]
	var reply interface{} = []interface{}{}
	m.noise = 0
	prev := m.snap
	rel := st.Str("rel")
	var quoted string
	switch st.Str("op") {
	case "badd":
		p.Sendf("BOUNCER ADDNETWORK :%s", m.battrs(st.Map("a"), false))
	case "bchange":
		if rel != "" {
			m.release(rel)
		}
		p.Sendf("BOUNCER CHANGENETWORK %d :%s", m.realID(st.Int("id")), m.battrs(st.Map("a"), st.Bool("part")))
	case "bdel":
		p.Sendf("BOUNCER DELNETWORK %d", m.realID(st.Int("id")))
	case "screate":
		p.Send("PRIVMSG BouncerServ :" + m.as(c, st.Str("as"), "network create"+m.flags(st.Map("a"))))
	case "supdate", "sdelete", "quote":
		arg := ""
		if s := st.Str("arg"); s != "~" {
			arg = " " + quoteArg(m.name(s))
		}
		cmd := ""
		switch st.Str("op") {
		case "supdate":
			cmd = "network update" + arg + m.flags(st.Map("a"))
			if rel != "" {
				m.release(rel)
			}
		case "sdelete":
			cmd = "network delete" + arg
		case "quote":
			m.nq++
			quoted = fmt.Sprintf("VQUOTE q%d :some text", m.nq)
			cmd = "network quote" + arg + " " + quoteArg(quoted)
		}
		p.Send("PRIVMSG BouncerServ :" + m.as(c, st.Str("as"), cmd))
	case "status":
		p.Send("PRIVMSG BouncerServ :" + m.as(c, st.Str("as"), "network status"))
	case "list":
		p.Send("BOUNCER LISTNETWORKS")
	case "nick":
		v := st.Str("v")
		switch v {
		case "bad":
			v = "a*b"
		case "serv":
			v = "bouncerserv"
		}
		p.Send("NICK " + v)
	case "setname":
		p.Send("SETNAME :" + st.Str("v"))
	case "limit":
		m.w.Clients["r1"].Sendf("PRIVMSG BouncerServ :user update alice -max-networks %d", st.Int("m"))
		c = "r1"
	case "hold":
		n := m.w.Nets[st.Str("s")]
		n.mu.Lock()
		n.Hold = true
		n.mu.Unlock()
		for _, uc := range n.Live() {
			uc.conn.Close()
		}
	case "release":
		m.release(st.Str("s"))
	case "connect":
		user := "alice"
		if c == "r1" {
			user = "root"
		}
		netw, id := "", 0
		if st.Int("net") != 0 {
			id = m.realID(st.Int("net"))
			if st.Str("how") == "name" && !strings.HasPrefix(st.Str("name"), "@") {
				netw, id = st.Str("name"), 0
			}
		}
		if err := m.connect(c, user, st.Str("kind"), netw, id); err != nil {
			return nil, err
		}
	case "disconnect":
		delete(m.cls, c)
		if err := m.w.Disconnect(c); err != nil {
			return nil, err
		}
	case "restart":
		m.cls = map[string]*netsClient{}
		var err error
		if st.Bool("kill") {
			err = m.w.Crash()
		} else {
			err = m.w.Restart()
		}
		if err != nil {
			return nil, err
		}
		if err := m.watch(); err != nil {
			return nil, err
		}
	default:
		fatal("unknown operation %q", st.Str("op"))
	}
	if op := st.Str("op"); op == "badd" || op == "screate" {
		// The identifier is known once the client was answered.
		if err := p.Sync(); err != nil {
			return nil, err
		}
		if r := exp.List("reply"); len(r) == 2 {
			m.fresh(int(r[1].(float64)))
		}
	}
	got, err := m.settle(exp)
	if err != nil {
		return nil, err
	}
	db := m.db()

	byName := func(u, name string) int {
		for _, l := range []map[string][]database.Network{m.snap, prev} {
			for _, n := range l[u] {
				if n.GetName() == name {
					return m.ids[int(n.ID)]
				}
			}
		}
		return -1
	}
	closed := p != nil && p.Closed()
	switch op := st.Str("op"); op {
	case "badd", "bchange", "bdel", "nick", "setname":
		var r []interface{}
		for _, msg := range got[c] {
			switch {
			case msg.Command == "BOUNCER" && strings.HasSuffix(param(msg, 0), "NETWORK") && param(msg, 0) != "NETWORK":
				id, _ := strconv.Atoi(param(msg, 1))
				r = append(r, "ok", m.ids[id])
			case msg.Command == "FAIL", msg.Command == "400", msg.Command == "432", msg.Command == "433":
				r = append(r, "fail")
			}
		}
		if (op == "nick" || op == "setname") && r == nil {
			r = []interface{}{"ok"}
		}
		if closed {
			r = []interface{}{"gone"}
		}
		reply = r
	case "screate", "supdate", "sdelete", "quote", "limit", "status":
		var r []interface{}
		var status []interface{}
		u := st.Str("as")
		for _, msg := range got[c] {
			if msg.Command != "PRIVMSG" || msg.Prefix.Name != "BouncerServ" {
				continue
			}
			t := param(msg, 1)
			if strings.HasPrefix(t, "error: ") {
				r = append(r, "fail")
			} else if x := netsReplyRe.FindStringSubmatch(t); x != nil {
				name, err := strconv.Unquote(`"` + x[1] + `"`)
				if err != nil {
					name = x[1]
				}
				r = append(r, "ok", byName(u, name))
			} else if strings.HasPrefix(t, "sent command to") {
				r = append(r, "ok")
			} else if op == "limit" {
				r = append(r, "ok")
			} else if x := netsStatusRe.FindStringSubmatch(t); op == "status" && x != nil {
				line := map[string]interface{}{"name": m.unname(x[1]), "cur": false, "error": false}
				addr := x[2]
				if addr == "" {
					addr = x[1]
				}
				line["addr"] = m.unaddr(addr)
				for _, s := range strings.Split(x[3], ", ") {
					switch {
					case s == "current":
						line["cur"] = true
					case strings.HasPrefix(s, "connected"):
						line["st"] = "connected"
					default:
						line["st"] = s
					}
				}
				if line["st"] != "connected" {
					line["error"] = x[4] != ""
				}
				status = append(status, line)
			} else if op == "status" && strings.HasPrefix(t, "No network configured") {
			} else {
				r = append(r, t)
			}
		}
		if quoted != "" {
			for name, n := range m.w.Nets {
				for _, uc := range n.Live() {
					uc.Peer.mu.Lock()
					for _, msg := range uc.Peer.inbox {
						x := msg.Copy()
						x.Prefix = nil
						if x.String() == quoted {
							r = append(r, "quoted", name, uc.Nick)
						}
					}
					uc.Peer.mu.Unlock()
				}
			}
		}
		reply = r
		if op == "status" && r == nil {
			reply = map[string]interface{}{"status": status}
		}
		if closed {
			reply = []interface{}{"gone"}
		}
	case "list":
		m.noise = 0
		v := map[int]map[string]string{}
		for _, msg := range got[c] {
			if msg.Command == "BOUNCER" && param(msg, 0) == "NETWORK" {
				id, _ := strconv.Atoi(param(msg, 1))
				v[id] = map[string]string{}
				for k, s := range irc.ParseTags(param(msg, 2)) {
					v[id][k] = string(s)
				}
			}
		}
		reply = map[string]interface{}{"list": m.view(v)}
	case "connect":
		id := 0
		for _, msg := range got[c] {
			if msg.Command == "005" {
				for _, s := range msg.Params {
					if strings.HasPrefix(s, "BOUNCER_NETID=") {
						k, _ := strconv.Atoi(strings.TrimPrefix(s, "BOUNCER_NETID="))
						id = m.ids[k]
					}
				}
			}
		}
		reply = []interface{}{"in", id}
	}

	conns, pend := m.conns()
	watch := map[string]interface{}{}
	for u, wc := range netsWatch {
		watch[u] = m.view(m.cls[wc].view)
	}
	live := []string{}
	views := map[string]interface{}{}
	nicks := map[string]interface{}{}
	for name, cp := range m.w.Clients {
		if name == "wa" || name == "wr" || cp.Closed() {
			continue
		}
		live = append(live, name)
		if m.cls[name].kind == "notify" {
			views[name] = m.view(m.cls[name].view)
		}
		if exp.Map("nicks").Has(name) {
			nicks[name] = m.cls[name].nick
		}
	}
	sort.Strings(live)
	for name, cp := range m.w.Clients {
		if cp.Closed() && name != "wa" && name != "wr" {
			delete(m.w.Clients, name)
			delete(m.cls, name)
		}
	}
	// Identifiers may be reused once a network is gone.
	for id := range m.ids {
		found := false
		for _, l := range m.snap {
			for _, n := range l {
				found = found || int(n.ID) == id
			}
		}
		if !found {
			delete(m.ids, id)
		}
	}
	return map[string]interface{}{
		"reply": reply, "db": db, "conns": conns, "pending": pend, "watch": watch,
		"live": live, "views": views, "nicks": nicks, "noise": m.noise,
	}, nil
}
