import os, runpy
_b1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
world = _b1["world"]
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="whois-abort-server", property="P04",
    needs="a WHOIS directed to a server still unanswered when the network is lost",
    breaks="the end of the aborted question names the server instead of the nickname asked about: the client never learns that its question is over",
    edits=[("upstream.go", '''				nick := pendingCmd.msg.Params[len(pendingCmd.msg.Params)-1]
				dc.SendMessage''', '''				nick := pendingCmd.msg.Params[0]
				dc.SendMessage''')],
    demo='''
func demo() {''' + world(extra='''
	n.Handler = func(uc *UpConn, m *irc.Message) bool { return m.Command == "WHOIS" }
''') + '''
	_ = uc
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	c.Send("WHOIS hub.example bob")
	must(w.Sync())
	c.Take()
	must(w.NetDown(n))
	must(w.Sync())
	if l := lines(c); !has(l, " bob ") {
		fail("no end for bob: %q", l)
	}
}
''')

bug(id="impersonate-prefix", property="P08",
    needs="a SASL PLAIN login of an ordinary user with the identity of another account whose name is a prefix of its own",
    breaks="the login is not refused: somebody who asked to act for one account is let in to another",
    edits=[("downstream.go", '''			if credentials.plain.Identity != "" && credentials.plain.Identity != credentials.plain.Username {
				var u *database.User''', '''			if credentials.plain.Identity != "" && !strings.HasPrefix(credentials.plain.Username, credentials.plain.Identity) {
				var u *database.User''')],
    imports=["encoding/base64"],
    demo='''
func demo() {
	w := NewWorld()
	defer w.Destroy()
	w.AddUser("al", false)
	w.AddUser("alice", false)
	w.Start()
	p := w.Dial("x")
	resp := base64.StdEncoding.EncodeToString([]byte("al\\x00alice\\x00pw"))
	p.Send("CAP LS 302", "CAP REQ sasl", "NICK x", "USER x x x x", "AUTHENTICATE PLAIN")
	_, err := p.WaitMsg(func(m *irc.Message) bool { return m.Command == "AUTHENTICATE" })
	must(err)
	p.Send("AUTHENTICATE " + resp)
	m, err := p.WaitMsg(func(m *irc.Message) bool { return m.Command == "903" || m.Command == "904" || m.Command == "ERROR" })
	must(err)
	if m.Command == "903" {
		fail("let in: %v", m)
	}
}
''')

bug(id="password-with-admin", property="P09",
    needs="one `user update` by an administrator that changes the password together with the administrator status",
    breaks="the new password is not stored: the old one is still accepted",
    edits=[("user.go", '''				if e.password != nil {
					record.Password = *e.password
				}
				if e.admin != nil {
					record.Admin = *e.admin
				}''', '''				if e.admin != nil {
					record.Admin = *e.admin
				} else if e.password != nil {
					record.Password = *e.password
				}''')],
    imports=["context"],
    demo='''
func demo() {
	w := NewWorld()
	defer w.Destroy()
	w.AddUser("root", true)
	w.AddUser("bob", false)
	w.Start()
	c, err := w.Connect(Login{Key: "c", User: "root"})
	must(err)
	before, err := w.DB.GetUser(context.Background(), "bob")
	must(err)
	c.Send("PRIVMSG BouncerServ :user update bob -password 'new one' -admin false")
	must(w.Sync())
	after, err := w.DB.GetUser(context.Background(), "bob")
	must(err)
	if before.Password == after.Password {
		fail("the password was not stored: %q", lines(c))
	}
}
''')

bug(id="limit-counts-connected", property="P10",
    needs="a user at the limit of enabled networks, one of which is not connected at the moment",
    breaks="a network which is enabled but not connected does not count: more networks than allowed can be enabled",
    edits=[("user.go", '''		if network.Enabled {
			n++
		}
	}
	if n >= max {''', '''		if network.Enabled && network.conn != nil {
			n++
		}
	}
	if n >= max {''')],
    demo='''
func demo() {
	w := NewWorld()
	defer w.Destroy()
	w.Cfg.MaxUserNetworks = 1
	u := w.AddUser("alice", false)
	n := NewFakeNet("N")
	w.AddNet(u, n, "n1")
	w.Start()
	_, err := n.WaitUp()
	must(err)
	must(w.Sync())
	c, err := w.Connect(Login{Key: "c", User: "alice"})
	must(err)
	must(w.NetDown(n))
	must(w.Sync())
	c.Take()
	c.Send("PRIVMSG BouncerServ :network create -addr irc+insecure://127.0.0.1:9 -name n2")
	must(w.Sync())
	if l := lines(c); !has(l, "maximum number") {
		fail("the second network was accepted: %q", l)
	}
}
''')

bug(id="mark-other-case", property="P11",
    needs="the first read marker for a target set with a spelling that differs from the canonical one",
    breaks="the marker is stored under that spelling and not found again: it is not shown under the other ones, and can go back",
    edits=[("downstream.go", '''				Target: targetCM,
''', '''				Target: target,
''')],
    demo='''
func demo() {''' + world() + '''
	_ = uc
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1", Caps: []string{"draft/read-marker"}})
	must(err)
	c.Send("MARKREAD Bob timestamp=2020-01-02T03:04:05.000Z")
	must(w.Sync())
	c.Take()
	c.Send("MARKREAD bob")
	must(w.Sync())
	if l := lines(c); !has(l, "2020-01-02") {
		fail("the marker is lost: %q", l)
	}
}
''')

bug(id="monitor-clears-offline", property="P12",
    needs="a nickname no longer followed while all those still followed are offline",
    breaks="the list at the network is cleared although some nicknames are still followed: clients are not told when they come online",
    edits=[("upstream.go", '''		if _, ok := seen[uc.network.casemap(nick)]; ok {
			removeAll = false
		} else {''', '''		if _, ok := seen[uc.network.casemap(nick)]; ok {
			removeAll = removeAll && !online
		} else {''')],
    demo='''
func demo() {''' + world(extra='''
	n.ISupport = []string{"MONITOR=100"}
	var got []string
	n.Handler = func(uc *UpConn, m *irc.Message) bool {
		if m.Command == "MONITOR" {
			got = append(got, m.String())
			return true
		}
		return false
	}
''') + '''
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	c.Send("MONITOR + bob,carol")
	must(w.Sync())
	uc.Send(":irc.example 731 alice :bob", ":irc.example 731 alice :carol")
	must(w.Sync())
	c.Send("MONITOR - bob")
	must(w.Sync())
	if has(got, "MONITOR C") {
		fail("the list was cleared: %q", got)
	}
}
''')

bug(id="before-connect-cut", property="P13",
    needs="a network whose value of draft/account-registration has something after before-connect",
    breaks="the values after it are not shown to clients",
    edits=[("downstream.go", '''				values = append(values[:i], values[i+1:]...)
				break
''', '''				values = values[:i]
				break
''')],
    demo='''
func demo() {''' + world(caps='"draft/account-registration=before-connect,custom-account-name"') + '''
	_ = uc
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	c.Take()
	c.Send("CAP LS 302")
	must(w.Sync())
	if l := lines(c); !has(l, "draft/account-registration=custom-account-name") {
		fail("the value is wrong: %q", l)
	}
}
''')

bug(id="anonymous-keeps-cert", property="P14",
    needs="SASL ANONYMOUS by a client on a network whose credentials are a certificate",
    breaks="the client is told that the credentials are forgotten, but the certificate is kept and used",
    edits=[("downstream.go", '''			if uc.network.SASL.Mechanism != "" {
				record := uc.network.Network''', '''			if uc.network.SASL.Mechanism == "PLAIN" {
				record := uc.network.Network''')],
    demo='''
func demo() {''' + world(caps='"sasl=PLAIN,EXTERNAL"') + '''
	_ = uc
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1", Caps: []string{"sasl"}})
	must(err)
	c.Send("PRIVMSG BouncerServ :certfp generate")
	must(w.Sync())
	c.Send("AUTHENTICATE ANONYMOUS", "AUTHENTICATE +")
	must(w.Sync())
	c.Take()
	c.Send("PRIVMSG BouncerServ :sasl status")
	must(w.Sync())
	if l := lines(c); has(l, "EXTERNAL enabled") || has(l, "SASL EXTERNAL") {
		fail("the certificate is still there: %q", l)
	}
}
''')

bug(id="prefix-token-short", property="P15",
    needs="a network that announces a PREFIX token with fewer symbols than modes",
    breaks="the token makes the bouncer panic: everything of that user stops",
    edits=[("upstream.go", '''	if sep < 0 || len(s) != sep*2 {''', '''	if sep < 0 || len(s) > sep*2 {''')],
    demo='''
func demo() {''' + world() + '''
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	uc.Send(":irc.example 005 alice PREFIX=(qaohv)~& :are supported by this server")
	uc.Sync()
	c.Send("PING x")
	if _, err := c.WaitMsg(func(m *irc.Message) bool { return m.Command == "PONG" }); err != nil {
		fail("the bouncer no longer answers: %v", err)
	}
}
''')

bug(id="kick-keeps-info", property="P16",
    needs="somebody kicked from the last channel shared with us, who then changes unseen, and a WHO about them",
    breaks="what was known of a kicked user is kept: WHO is answered from memory although the network does not keep us informed any more",
    edits=[("upstream.go", '''			ch.Members.Del(user)
			if !uc.shouldCacheUserInfo(user) {
				uc.users.Del(user)
			}
''', '''			ch.Members.Del(user)
			if !uc.shouldCacheUserInfo(msg.Prefix.Name) {
				uc.users.Del(user)
			}
''')],
    demo='''
func demo() {''' + world(caps='"away-notify", "account-notify", "extended-join"', extra='''
	n.ISupport = []string{"WHOX"}
	host := "old.example"
	n.Handler = func(uc *UpConn, m *irc.Message) bool {
		if m.Command != "WHO" {
			return false
		}
		uc.Sendf(":irc.example 354 alice 0 %s irc.example bob H acct :Real", host)
		uc.Sendf(":irc.example 315 alice %s :End", m.Params[0])
		return true
	}
''') + '''
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	c.Send("JOIN #a")
	must(w.Sync())
	uc.Send(":bob!u@old.example JOIN #a acct :Real", ":carol!u@h JOIN #a * :Carol")
	must(w.Sync())
	uc.Send(":carol!u@h KICK #a bob :out")
	host = "new.example"
	must(w.Sync())
	c.Take()
	c.Send("WHO bob %nh")
	must(w.Sync())
	if l := lines(c); has(l, "old.example") {
		fail("answered with what was once known: %q", l)
	}
}
''')
