package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"codeberg.org/emersion/soju/identd"
)

// idents replays Idents.tla: the ident server alone.
type idents struct {
	d    *identd.Identd
	ln   net.Listener
	port string
}

func init() {
	modules["idents"] = func(init Step) (Module, error) {
		ln, err := net.Listen("tcp", "0.0.0.0:0")
		if err != nil {
			fatal("failed to listen: %v", err)
		}
		m := &idents{d: identd.New(), ln: ln}
		_, m.port, _ = net.SplitHostPort(ln.Addr().String())
		go m.d.Serve(ln)
		return m, nil
	}
}

func (m *idents) ServerLog() string { return "" }
func (m *idents) Close()            { m.ln.Close() }

func (m *idents) Do(st Step) (interface{}, error) {
	c := st.Map("c")
	remote, local := fmt.Sprintf("%s:%d", c.Str("s"), c.Int("rp")), fmt.Sprintf("%s:%d", c.Str("l"), c.Int("lp"))
	switch st.Str("op") {
	case "open":
		m.d.Store(remote, local, st.Str("u"))
	case "close":
		m.d.Delete(remote, local)
	case "ask":
		conn, err := doorDialer(c.Str("s")).Dial("tcp", net.JoinHostPort(c.Str("l"), m.port))
		if err != nil {
			return nil, err
		}
		defer reset(conn)
		conn.SetDeadline(time.Now().Add(syncTimeout))
		q := fmt.Sprintf("%d, %d", c.Int("lp"), c.Int("rp"))
		io.WriteString(conn, q+"\r\n")
		a, err := bufio.NewReader(conn).ReadString('\n')
		if err != nil {
			return nil, err
		}
		l := strings.Split(strings.TrimRight(a, "\r\n"), " : ")
		if l[0] == q && (len(l) == 3 && l[1] == "ERROR" || len(l) == 4 && l[1] == "USERID") {
			return l[len(l)-1], nil
		}
		return "answer " + a, nil
	default:
		return nil, fmt.Errorf("unknown step %q", st.Str("op"))
	}
	return "ok", nil
}
