BUGS = []
def bug(**k): BUGS.append(k)

WORLD = '''
	w := NewWorld()
	defer w.Destroy()
	u := w.AddUser("alice", false)
	n := NewFakeNet("N")
	n.Caps = []string{%s}
	w.AddNet(u, n, "n1")
'''
def world(caps="", extra=""):
    return WORLD % caps + extra + '''
	w.Start()
	uc, err := n.WaitUp()
	must(err)
	must(w.Sync())
'''
MODES = '\tn.ISupport = []string{"PREFIX=(qohv)~@%+", "CHANMODES=beI,k,l,imnst"}\n'

bug(id="mode-arg-shift", property="P07",
    needs="one MODE message that unsets the channel key (or another type B mode) before changing a member's prefix",
    breaks="unsetting a mode that takes a parameter no longer consumes the parameter, so the prefix changes that follow in the same message are applied to the wrong member; clients connecting later are shown wrong prefixes",
    edits=[("irc.go", '''				if ch.modes != nil {
					ch.modes[mode] = argument
				}
			} else {
				delete(ch.modes, mode)
			}
			nextArgument++
		} else if''', '''				if ch.modes != nil {
					ch.modes[mode] = argument
				}
				nextArgument++
			} else {
				delete(ch.modes, mode)
			}
		} else if''')],
    demo='''
func demo() {''' + world(extra=MODES) + '''
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	c.Send("JOIN #a")
	must(w.Sync())
	uc.Send(":bob!u@h JOIN #a", ":carol!u@h MODE #a +k sesame", ":carol!u@h MODE #a -k+o sesame bob")
	must(w.Sync())
	c.Take()
	c.Send("NAMES #a")
	must(w.Sync())
	l := lines(c)
	if !has(l, "@bob") {
		fail("bob isn't shown as an operator: %q", l)
	}
}
''')

bug(id="prefix-removal", property="P07",
    needs="a member holding several prefixes loses one that is not its lowest",
    breaks="removing one prefix of a member who has several removes all lower ones too",
    edits=[("xirc/xirc.go", '''			*ms = append(l[:i], l[i+1:]...)
			return''', '''			*ms = l[:i]
			return''')],
    demo='''
func demo() {''' + world(caps='"multi-prefix"', extra=MODES) + '''
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1", Caps: []string{"multi-prefix"}})
	must(err)
	c.Send("JOIN #a")
	must(w.Sync())
	uc.Send(":bob!u@h JOIN #a", ":carol!u@h MODE #a +ov bob bob", ":carol!u@h MODE #a -o bob")
	must(w.Sync())
	c.Take()
	c.Send("NAMES #a")
	must(w.Sync())
	l := lines(c)
	if !has(l, "+bob") {
		fail("bob isn't shown as voiced: %q", l)
	}
}
''')

bug(id="echo-advance", property="P02",
    needs="a client without echo-message sends a message, acknowledges it, and returns later: only its own messages are concerned",
    breaks="the position of a client is not advanced past its own messages, so they are replayed to it when it returns",
    edits=[("upstream.go", '''		} else {
			dc.advanceMessageWithID(ctx, msg, msgID)
		}
	})
}''', '''		} else if detached {
			dc.advanceMessageWithID(ctx, msg, msgID)
		}
	})
}''')],
    demo='''
func ack(p *Peer) []string {
	var out []string
	for _, m := range p.Take() {
		if m.Command == "PING" {
			p.Send("PONG " + m.Params[0])
		}
		out = append(out, m.String())
	}
	return out
}

func demo() {''' + world() + '''
	_ = uc
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1", Client: "x"})
	must(err)
	uc.Send(":bob!u@h PRIVMSG alice :first")
	must(w.Sync())
	ack(c)
	must(w.Sync())
	c.Send("PRIVMSG bob :mine")
	must(w.Sync())
	ack(c)
	must(w.Sync())
	must(w.Disconnect("c"))
	c, err = w.Connect(Login{Key: "c", User: "alice", Net: "n1", Client: "x"})
	must(err)
	if l := ack(c); has(l, "mine") {
		fail("own message replayed: %q", l)
	}
}
''')

bug(id="receipts-after-kick", property="P02",
    needs="a persistent store; the user is kicked from a channel, the client then leaves, and the bouncer restarts",
    breaks="the position of a client in a channel the bouncer is not in when the client leaves is not stored, so what it missed there is not sent after a restart",
    edits=[("user.go", '''		msgID := net.delivered.LoadID(target, clientName)
		if msgID == "" {
			return
		}
		receipts''', '''		msgID := net.delivered.LoadID(target, clientName)
		if msgID == "" || (net.conn != nil && net.conn.channels.Get(target) == nil && net.conn.isChannel(target)) {
			return
		}
		receipts''')],
    demo='''
func ack(p *Peer) []string {
	var out []string
	for _, m := range p.Take() {
		if m.Command == "PING" {
			p.Send("PONG " + m.Params[0])
		}
		out = append(out, m.String())
	}
	return out
}

func demo() {
	w := NewWorld()
	defer w.Destroy()
	w.Cfg.MsgStoreDriver = "db"
	u := w.AddUser("alice", false)
	n := NewFakeNet("N")
	n.Caps = []string{}
	w.AddNet(u, n, "n1")
	w.Start()
	uc, err := n.WaitUp()
	must(err)
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1", Client: "x"})
	must(err)
	c.Send("JOIN #a")
	must(w.Sync())
	uc.Send(":bob!u@h PRIVMSG #a :first")
	must(w.Sync())
	ack(c)
	must(w.Sync())
	// We're kicked, then the client leaves.
	uc.Send(":bob!u@h KICK #a alice :out")
	must(w.Sync())
	must(w.Disconnect("c"))
	k := n.NumConns()
	must(w.Restart())
	_, err = n.WaitConn(k)
	must(err)
	uc, err = n.WaitUp()
	must(err)
	must(w.Sync())
	uc.Send(":bob!u@h PRIVMSG #a :second")
	must(w.Sync())
	c, err = w.Connect(Login{Key: "c", User: "alice", Net: "n1", Client: "x"})
	must(err)
	l := ack(c)
	if !has(l, "second") || has(l, "first") {
		fail("wrong backlog: %q", l)
	}
}
''')

bug(id="between-backwards-limit", property="P03",
    needs="a CHATHISTORY BETWEEN request whose first bound is the later one, with a limit smaller than the number of messages within bounds",
    breaks="BETWEEN always reads forwards from the earlier bound, so a backwards request is answered with the messages farthest from the side it starts from",
    edits=[("downstream.go", '''			} else {
				history, err = store.LoadBeforeTime(ctx, bounds[0], bounds[1], &options)
			}''', '''			} else {
				history, err = store.LoadAfterTime(ctx, bounds[1], bounds[0], &options)
			}''')],
    imports=["time"],
    demo='''
func demo() {
	w := NewWorld()
	defer w.Destroy()
	w.Cfg.MsgStoreDriver = "db"
	u := w.AddUser("alice", false)
	n := NewFakeNet("N")
	n.Caps = []string{"server-time"}
	w.AddNet(u, n, "n1")
	w.Start()
	uc, err := n.WaitUp()
	must(err)
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1", Caps: []string{"draft/chathistory", "batch", "server-time"}})
	must(err)
	base := time.Now().Add(-time.Hour).UTC()
	ts := func(i int) string { return base.Add(time.Duration(i) * time.Minute).Format("2006-01-02T15:04:05.000Z") }
	for i := 1; i <= 3; i++ {
		uc.Sendf("@time=%s :bob!u@h PRIVMSG alice :msg%d", ts(i), i)
	}
	must(w.Sync())
	c.Take()
	c.Sendf("CHATHISTORY BETWEEN bob timestamp=%s timestamp=%s 1", ts(4), ts(0))
	must(w.Sync())
	l := lines(c)
	if !has(l, "msg3") || has(l, "msg1") {
		fail("wrong history: %q", l)
	}
}
''')

bug(id="join-keys-unsorted", property="P05",
    needs="several saved channels, one with a key that sorts after one without, rejoined in a single JOIN after a reconnection",
    breaks="channels with keys are no longer placed first in a combined JOIN, so keys are given to the wrong channels",
    edits=[("xirc/genmsg.go", '''	if (js.keys[i] != "") != (js.keys[j] != "") {''', '''	if (js.keys[i] != "") != (js.keys[j] != "") && len(js.channels) <= 3 {''')],
    demo='''
func demo() {''' + world() + '''
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	c.Send("JOIN #a", "JOIN #b", "JOIN #c", "JOIN #zz sesame")
	must(w.Sync())
	uc.Take()
	must(w.NetDown(n))
	w.NetUp(n)
	must(w.Sync())
	got := ""
	for _, m := range n.Cur().Take() {
		if m.Command == "JOIN" {
			chans := strings.Split(m.Params[0], ",")
			if len(m.Params) > 1 {
				for i, k := range strings.Split(m.Params[1], ",") {
					got += chans[i] + "=" + k + ";"
				}
			}
		}
	}
	if got != "#zz=sesame;" {
		fail("keys given on rejoining: %q", got)
	}
}
''')

bug(id="kick-forgets-channel", property="P05",
    needs="the user is kicked from a channel while it is detached, and the bouncer reconnects later",
    breaks="being kicked from a detached channel removes it from the saved channels",
    edits=[("upstream.go", '''		if uc.isOurNick(user) {
			uc.logger.Printf("kicked from channel %q by %s", channel, msg.Prefix.Name)
''', '''		if uc.isOurNick(user) {
			uc.logger.Printf("kicked from channel %q by %s", channel, msg.Prefix.Name)
			if c := uc.network.channels.Get(channel); c != nil && c.Detached {
				uc.network.deleteChannel(ctx, channel)
			}
''')],
    demo='''
func demo() {''' + world() + '''
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	c.Send("JOIN #a")
	must(w.Sync())
	c.Send("PART #a :detach")
	must(w.Sync())
	uc.Send(":bob!u@h KICK #a alice :out")
	must(w.Sync())
	must(w.NetDown(n))
	w.NetUp(n)
	must(w.Sync())
	for _, m := range n.Cur().Take() {
		if m.Command == "JOIN" && m.Params[0] == "#a" {
			return
		}
	}
	fail("the channel isn't joined again")
}
''')

bug(id="detach-marker-moves", property="P06",
    needs="a channel is detached, then detached again through the service or PART (it already is) after more messages, then reattached",
    breaks="detaching an already detached channel moves the point from which messages are shown on reattaching, so the messages before it are never shown",
    edits=[("user.go", '''func (net *network) detach(ch *database.Channel) {
	if ch.Detached {
		return
	}
''', '''func (net *network) detach(ch *database.Channel) {
	if ch.Detached && net.user.msgStore == nil {
		return
	}
''')],
    demo='''
func demo() {''' + world() + '''
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1", Client: "x"})
	must(err)
	c.Send("JOIN #a")
	must(w.Sync())
	uc.Send(":bob!u@h PRIVMSG #a :zero")
	must(w.Sync())
	c.Send("PART #a :detach")
	must(w.Sync())
	uc.Send(":bob!u@h PRIVMSG #a :one")
	must(w.Sync())
	c.Send("PART #a :detach")
	must(w.Sync())
	c.Take()
	c.Send("JOIN #a")
	must(w.Sync())
	if l := lines(c); !has(l, "one") {
		fail("message missing: %q", l)
	}
}
''')

bug(id="echo-to-others", property="P01",
    needs="a network with echo-message and labeled-response, a client with echo-message and one without it, both connected, the one without it sending",
    breaks="when the author's client didn't ask for echoes, another client that did not ask for them either is not shown the message",
    edits=[("upstream.go", '''		echo := dc.id == originID && msg.Prefix != nil && uc.isOurNick(msg.Prefix.Name)''',
                 '''		echo := originID != 0 && uc.caps.IsEnabled("echo-message") && msg.Prefix != nil && uc.isOurNick(msg.Prefix.Name)''')],
    demo='''
func demo() {''' + world(caps='"echo-message", "labeled-response", "batch", "message-tags"', extra='''
	n.Handler = func(uc *UpConn, m *irc.Message) bool {
		if m.Command != "PRIVMSG" {
			return false
		}
		tag := ""
		if l, ok := m.Tags["label"]; ok {
			tag = "@label=" + string(l) + " "
		}
		uc.Sendf("%s:%s PRIVMSG %s :%s", tag, uc.prefix(), m.Params[0], m.Params[1])
		return true
	}
''') + '''
	_ = uc
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	d, err := w.Connect(Login{Key: "d", User: "alice", Net: "n1"})
	must(err)
	d.Take()
	c.Send("PRIVMSG bob :hello")
	must(w.Sync())
	if l := lines(d); count(l, "hello") != 1 {
		fail("the other client isn't shown the message: %q", l)
	}
}
''')

