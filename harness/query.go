package main

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// query replays Query.tla: questions to the network and their answers.
type query struct {
	w      *World
	net    *FakeNet
	lab    bool
	asked  map[string][]*irc.Message // commands received, per kind, unanswered
	plain  []*irc.Message
	refs   map[string]string
	nref   int
	nrow   int
	idMask map[string]string
}

func init() {
	for _, r := range whoisRows {
		queryRow[r[:3]] = "WHOIS"
	}
	modules["query"] = func(init Step) (Module, error) {
		m := &query{w: NewWorld(), lab: init.Bool("lab"), asked: make(map[string][]*irc.Message), refs: make(map[string]string)}
		u := m.w.AddUser("alice", false)
		m.net = NewFakeNet("N")
		m.net.Caps = append(extraCaps(), "draft/account-registration")
		if m.lab {
			m.net.Caps = append(m.net.Caps, "labeled-response", "batch", "message-tags")
		}
		m.w.AddNet(u, m.net, "n1")
		m.w.Start()
		if _, err := m.net.WaitUp(); err != nil {
			return m, err
		}
		err := m.w.Sync()
		m.take()
		return m, err
	}
}

func (m *query) ServerLog() string { return m.w.logBuf.String() }
func (m *query) Close()            { m.w.Destroy() }

var queryRow = map[string]string{"352": "WHO", "354": "WHO", "322": "LIST", "321": "LIST"}

// The lines a WHOIS answer can consist of.
var whoisRows = []string{
	"311 %s %s u h * :real row%d", "312 %s %s srv.example :info row%d", "313 %s %s :is an operator row%d",
	"317 %s %s 5 1600000000 :seconds idle row%d", "319 %s %s :#a #b row%d", "330 %s %s acct :is logged in as row%d",
	"276 %s %s :has certificate fingerprint row%d", "307 %s %s :is registered row%d", "320 %s %s :is special row%d",
	"338 %s %s 192.0.2.1 :actual host row%d", "378 %s %s :is connecting from row%d", "379 %s %s :is using modes row%d",
	"671 %s %s :is using a secure connection row%d",
}
var queryEnd = map[string]string{"315": "WHO", "318": "WHOIS", "323": "LIST"}

var queryKinds = map[string]bool{"WHO": true, "WHOIS": true, "LIST": true, "REGISTER": true, "VERIFY": true}

func (m *query) take() interface{} {
	up := [][]string{}
	if uc := m.net.Cur(); uc != nil {
		for _, msg := range uc.Take() {
			k := msg.Command
			switch k {
			case "WHO", "WHOIS":
				m.asked[k] = append(m.asked[k], msg)
				up = append(up, []string{k, strings.Join(msg.Params, " ")})
			case "LIST":
				m.asked[k] = append(m.asked[k], msg)
				up = append(up, []string{k, strings.TrimPrefix(strings.Join(msg.Params, " "), "#")})
			case "REGISTER", "VERIFY":
				m.asked[k] = append(m.asked[k], msg)
				up = append(up, []string{k, msg.Params[0]})
			case "NAMES", "TOPIC", "MODE", "VERSION", "LUSERS", "FOO":
				m.plain = append(m.plain, msg)
				up = append(up, []string{strings.Join(append([]string{k}, msg.Params...), " ")})
			}
		}
	}
	cl := map[string]interface{}{}
	for name, p := range m.w.Clients {
		ev := [][]string{}
		for _, msg := range p.Take() {
			t := ""
			if len(msg.Params) > 0 {
				t = msg.Params[len(msg.Params)-1]
			}
			id := t[strings.LastIndex(t, " ")+1:]
			kind := param(msg, 1)
			switch {
			case queryRow[msg.Command] != "":
				if i := strings.LastIndex(id, "row"); i >= 0 {
					id = id[i+3:]
				}
				ev = append(ev, []string{queryRow[msg.Command], "row", id})
			case queryEnd[msg.Command] == "LIST":
				ev = append(ev, []string{"LIST", "end", ""})
			case queryEnd[msg.Command] != "":
				ev = append(ev, []string{queryEnd[msg.Command], "end", kind})
			case msg.Command == "401":
				ev = append(ev, []string{"WHOIS", "nosuch", kind})
			case msg.Command == "402":
				ev = append(ev, []string{"WHOIS", "nosuchserver", kind})
			case msg.Command == "263":
				ev = append(ev, []string{kind, "again", ""})
			case msg.Command == "461":
				ev = append(ev, []string{kind, "needmore", ""})
			case msg.Command == "421" && (queryKinds[kind]):
				ev = append(ev, []string{kind, "unknown", ""})
			case queryKinds[msg.Command] && param(msg, 0) == "SUCCESS":
				ev = append(ev, []string{msg.Command, "end", kind})
			case queryKinds[msg.Command]:
				ev = append(ev, []string{msg.Command, "more", kind})
			case msg.Command == "FAIL" && queryKinds[param(msg, 0)] && strings.Contains(t, "not supported"):
				ev = append(ev, []string{"refused"})
			case msg.Command == "FAIL" && queryKinds[param(msg, 0)]:
				ev = append(ev, []string{param(msg, 0), "fail", param(msg, 2)})
			case msg.Command == "400":
				ev = append(ev, []string{"refused"})
			case strings.HasPrefix(t, "plain"):
				ev = append(ev, []string{"plain", strings.TrimPrefix(t, "plain")})
			}
			for k := range msg.Tags {
				if k == "label" || k == "batch" {
					ev = append(ev, []string{"unexpected tag " + k})
				}
			}
		}
		cl[name] = ev
	}
	return map[string]interface{}{"up": up, "cl": cl}
}

func (m *query) Do(st Step) (interface{}, error) {
	w := m.w
	uc := m.net.Up()
	kind := st.Str("kind")
	mask := st.Str("mask")
	ask := func() {
		c := w.Clients[st.Str("c")]
		long := st.Int("f") == 1
		switch {
		case kind == "LIST" && long:
			c.Sendf("LIST #%s,>3", mask)
		case kind == "LIST":
			c.Sendf("LIST #%s", mask)
		case kind == "REGISTER":
			c.Sendf("REGISTER %s * secret%d", mask, st.Int("id"))
		case kind == "VERIFY":
			c.Sendf("VERIFY %s code%d", mask, st.Int("id"))
		case kind == "WHO" && long:
			c.Sendf("WHO %s %%tcuhnfar,42", mask)
		case kind == "WHOIS" && long:
			c.Sendf("WHOIS srv.example %s", mask)
		default:
			c.Sendf("%s %s", kind, mask)
		}
	}
	label := func(msg *irc.Message) string {
		if l, ok := msg.Tags["label"]; ok {
			return "label=" + string(l)
		}
		return ""
	}
	// reply prefixes lines with what ties them to the question.
	reply := func(final bool, lines ...string) error {
		if len(m.asked[kind]) == 0 {
			return fmt.Errorf("the network was not asked %v", kind)
		}
		msg := m.asked[kind][0]
		l := label(msg)
		if m.lab && l == "" {
			return fmt.Errorf("no label on %v", msg)
		}
		tag := ""
		if m.lab {
			if m.refs[kind] == "" && final && len(lines) == 1 {
				tag = "@" + l + " "
			} else {
				if m.refs[kind] == "" {
					m.nref++
					m.refs[kind] = fmt.Sprintf("b%d", m.nref)
					uc.Sendf("@%s :%s BATCH +%s labeled-response", l, m.net.Host, m.refs[kind])
				}
				tag = "@batch=" + m.refs[kind] + " "
			}
		}
		var out []string
		for _, s := range lines {
			out = append(out, fmt.Sprintf("%s:%s %s", tag, m.net.Host, s))
		}
		if final {
			if m.refs[kind] != "" {
				out = append(out, fmt.Sprintf(":%s BATCH -%s", m.net.Host, m.refs[kind]))
				delete(m.refs, kind)
			}
			m.asked[kind] = m.asked[kind][1:]
		}
		uc.Send(out...)
		return nil
	}
	switch st.Str("op") {
	case "connect":
		caps := []string{"draft/account-registration"}
		if st.Str("c") == "c2" {
			caps = append(caps, "message-tags", "batch")
		}
		if _, err := w.Connect(Login{Key: st.Str("c"), User: "alice", Net: "n1", Caps: caps[1:]}); err != nil {
			return nil, err
		}
		w.Clients[st.Str("c")].Take()
	case "disconnect":
		if err := w.Disconnect(st.Str("c")); err != nil {
			return nil, err
		}
	case "ask":
		if st.Bool("givenup") && len(m.asked[kind]) > 0 {
			m.asked[kind] = m.asked[kind][1:]
			delete(m.refs, kind)
		}
		ask()
	case "wait":
		time.Sleep(31 * time.Second)
	case "askplain":
		w.Clients[st.Str("c")].Send(st.Str("what"))
	case "row":
		var s string
		switch kind {
		case "WHO":
			s = fmt.Sprintf("352 %s * u h srv %s H :0 real row%d", uc.Nick, mask, st.Int("id"))
			if st.Int("f") == 1 {
				s = fmt.Sprintf("354 %s 42 * u h %s H 0 :real row%d", uc.Nick, mask, st.Int("id"))
			}
		case "WHOIS":
			m.nrow++
			s = fmt.Sprintf(whoisRows[m.nrow%len(whoisRows)], uc.Nick, mask, st.Int("id"))
		case "LIST":
			m.nrow++
			s = fmt.Sprintf("322 %s #%s 5 :topic row%d", uc.Nick, mask, st.Int("id"))
			if m.nrow%3 == 0 {
				s = fmt.Sprintf("321 %s Channel :Users Name row%d", uc.Nick, st.Int("id"))
			}
		}
		if err := reply(false, s); err != nil {
			return m.take(), err
		}
	case "end":
		end := map[string]string{"WHO": "315 %s %s :End of /WHO list", "WHOIS": "318 %s %s :End of /WHOIS list", "LIST": "323 %s :End of /LIST"}[kind]
		if kind == "LIST" {
			end = fmt.Sprintf(end, uc.Nick)
		} else if kind == "WHO" || kind == "WHOIS" {
			end = fmt.Sprintf(end, uc.Nick, mask)
		}
		again := fmt.Sprintf("263 %s %s :Please wait a while and try again.", uc.Nick, kind)
		nosuch := fmt.Sprintf("401 %s %s :No such nick", uc.Nick, mask)
		var l []string
		switch st.Str("how") {
		case "end":
			l = []string{end}
			if kind == "REGISTER" || kind == "VERIFY" {
				l = []string{fmt.Sprintf("%s SUCCESS %s :done", kind, mask)}
			}
		case "more":
			l = []string{fmt.Sprintf("%s VERIFICATION_REQUIRED %s :check your mail", kind, mask)}
		case "fail":
			l = []string{fmt.Sprintf("FAIL %s ACCOUNT_EXISTS %s :exists", kind, mask)}
		case "again":
			l = []string{again}
		case "again+end":
			l = []string{again, end}
		case "nosuch":
			l = []string{nosuch}
		case "nosuch+end":
			l = []string{nosuch, end}
		case "unknown":
			l = []string{fmt.Sprintf("421 %s %s :Unknown command", uc.Nick, kind)}
		case "needmore":
			l = []string{fmt.Sprintf("461 %s %s :Not enough parameters", uc.Nick, kind)}
		case "nosuchserver":
			l = []string{fmt.Sprintf("402 %s srv.example :No such server", uc.Nick)}
		}
		if err := reply(true, l...); err != nil {
			return m.take(), err
		}
	case "answerplain":
		if len(m.plain) == 0 {
			return m.take(), fmt.Errorf("the network was not asked %v", st.Str("what"))
		}
		msg := m.plain[0]
		m.plain = m.plain[1:]
		tag := ""
		if m.lab {
			tag = "@" + label(msg) + " "
		}
		s := map[string]string{
			"NAMES": "366 %s #out", "TOPIC": "331 %s #out", "MODE": "324 %s #out +n", "VERSION": "351 %s v1 srv", "LUSERS": "251 %s", "FOO": "421 %s FOO",
		}[msg.Command]
		uc.Sendf("%s:%s %s :plain%d", tag, m.net.Host, fmt.Sprintf(s, uc.Nick), st.Int("id"))
	case "down":
		if err := w.NetDown(m.net); err != nil {
			return nil, err
		}
		m.asked = make(map[string][]*irc.Message)
		m.plain = nil
		m.refs = make(map[string]string)
	case "up":
		w.NetUp(m.net)
	}
	if err := w.Sync(); err != nil {
		return m.take(), err
	}
	obs := m.take()
	if strings.HasSuffix(st.Str("how"), "+end") {
		// Whether or not the end is shown too is of no importance.
		cl := obs.(map[string]interface{})["cl"].(map[string]interface{})
		for name, v := range cl {
			ev := v.([][]string)
			if len(ev) > 0 && ev[0][0] == kind && ev[0][1]+"+end" == st.Str("how") {
				if len(ev) == 2 && ev[1][0] == kind && ev[1][1] == "end" {
					ev = ev[:1]
				}
				ev[0] = []string{kind, st.Str("how"), ev[0][2]}
				cl[name] = ev
			}
		}
	}
	return obs, nil
}
