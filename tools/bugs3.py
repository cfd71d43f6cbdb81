import os, runpy
_b1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
world = _b1["world"]
BUGS = []
def bug(**k): BUGS.append(k)

PUSHIMP = ["context", "crypto/ecdh", "crypto/rand", "encoding/base64", "io", "net/http", "sync", "time", "codeberg.org/emersion/soju/database"]
PUSH = '''
// endpoints answers for every Web Push endpoint, in place of the network.
type endpoints struct {
	mu   sync.Mutex
	got  map[string]int
	code map[string]int
}

func (e *endpoints) RoundTrip(req *http.Request) (*http.Response, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	h := req.URL.Host
	e.got[h]++
	code := e.code[h]
	if code == 0 {
		code = 201
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Request: req}, nil
}

func (e *endpoints) count(h string) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.got[h]
}

func subscribe(w *World, userID, netID int64, host string) {
	configs, err := w.DB.ListWebPushConfigs(context.Background())
	must(err)
	if len(configs) != 1 {
		fail("%v Web Push configurations", len(configs))
	}
	k, err := ecdh.P256().GenerateKey(rand.Reader)
	must(err)
	sub := database.WebPushSubscription{Endpoint: "https://" + host + "/x"}
	sub.Keys.VAPID = configs[0].VAPIDKeys.Public
	sub.Keys.Auth = base64.RawURLEncoding.EncodeToString(make([]byte, 16))
	sub.Keys.P256DH = base64.RawURLEncoding.EncodeToString(k.PublicKey().Bytes())
	must(w.DB.StoreWebPushSubscription(context.Background(), userID, netID, &sub))
}

func eventually(f func() bool) bool {
	for i := 0; i < 200; i++ {
		if f() {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false
}
'''
PUSHW = '''
	e := &endpoints{got: map[string]int{}, code: map[string]int{}}
	http.DefaultTransport = e
	w := NewWorld()
	defer w.Destroy()
	u := w.AddUser("alice", false)
	n := NewFakeNet("N")
	rec := w.AddNet(u, n, "n1")
	w.Start()
	uc, err := n.WaitUp()
	must(err)
	must(w.Sync())
'''

bug(id="push-stops-at-expired", property="P17",
    needs="a user with several devices, one of which answers that its subscription has expired",
    breaks="the devices after it are not notified of the message during which the subscription is found to have expired",
    edits=[("user.go", '''				net.logger.Debugf("deleted expired Web Push subscription %q", sub.Endpoint)
			}''', '''				net.logger.Debugf("deleted expired Web Push subscription %q", sub.Endpoint)
				break
			}''')],
    imports=PUSHIMP,
    demo=PUSH + '''
func demo() {''' + PUSHW + '''
	for _, h := range []string{"a.example", "b.example", "c.example"} {
		subscribe(w, u.ID, rec.ID, h)
	}
	e.code["a.example"] = 404
	e.code["b.example"] = 404
	uc.Sendf(":bob!b@h PRIVMSG %s :hello", uc.Nick)
	must(w.Sync())
	if !eventually(func() bool { return e.count("c.example") == 1 }) {
		fail("notified: %v", e.got)
	}
}
''')

bug(id="push-muted-only-none", property="P17",
    needs="a highlight in a channel which is detached with the default setting for relaying",
    breaks="the highlight is not pushed although it would be relayed",
    edits=[("upstream.go", '''			if ch.Detached && ch.RelayDetached == database.FilterNone {''',
                           '''			if ch.Detached && ch.RelayDetached <= database.FilterNone {''')],
    imports=PUSHIMP,
    demo=PUSH + '''
func demo() {''' + PUSHW + '''
	subscribe(w, u.ID, rec.ID, "a.example")
	c, err := w.Connect(Login{Key: "c", User: "alice", Net: "n1"})
	must(err)
	c.Send("JOIN #chan")
	must(w.Sync())
	c.Send("PART #chan :detach")
	must(w.Sync())
	uc.Sendf(":bob!b@h PRIVMSG #chan :%s: hello", uc.Nick)
	must(w.Sync())
	if !eventually(func() bool { return e.count("a.example") == 1 }) {
		fail("notified: %v", e.got)
	}
}
''')

UPIMP = ["io", "net/http", "net/http/httptest", "codeberg.org/emersion/soju/auth", "codeberg.org/emersion/soju/fileupload"]
UP = '''
func server(w *World, origins ...string) *httptest.Server {
	up, err := fileupload.New("fs", w.Dir+"/uploads")
	must(err)
	return httptest.NewServer(&fileupload.Handler{
		Uploader:    up,
		Auth:        &auth.Authenticator{Plain: openAuth{}},
		DB:          w.DB,
		HTTPOrigins: origins,
	})
}

func do(method, u, body string, hdr ...string) (*http.Response, string) {
	req, err := http.NewRequest(method, u, strings.NewReader(body))
	must(err)
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	if method == "POST" {
		req.SetBasicAuth("alice", "pw")
	}
	resp, err := http.DefaultClient.Do(req)
	must(err)
	b, err := io.ReadAll(resp.Body)
	must(err)
	resp.Body.Close()
	return resp, string(b)
}
'''

bug(id="upload-name-after-dash", property="P18",
    needs="an upload named with a dash in it",
    breaks="the file is served under a name cut off at its last dash, and with it a type which may be another",
    edits=[("fileupload/fs.go", "strings.IndexByte(basename, '-')", "strings.LastIndexByte(basename, '-')")],
    imports=UPIMP,
    demo=UP + '''
func demo() {
	w := NewWorld()
	defer w.Destroy()
	w.AddUser("alice", false)
	s := server(w)
	defer s.Close()
	resp, _ := do("POST", s.URL+"/uploads", "hello", "Content-Disposition", "attachment; filename=to-do-list.txt")
	if resp.StatusCode != 201 {
		fail("refused: %v", resp.Status)
	}
	resp, _ = do("GET", s.URL+"/uploads/"+strings.TrimPrefix(resp.Header.Get("Location"), "/uploads/"), "")
	if d := resp.Header.Get("Content-Disposition"); !strings.Contains(d, "filename=to-do-list.txt") {
		fail("served as %q", d)
	}
}
''')

bug(id="upload-image-inline", property="P18",
    needs="an uploaded image of a type which is not on the list of those shown in place, such as SVG",
    breaks="it is shown in place: a document with scripts is opened in the origin of the bouncer",
    edits=[("fileupload/fileupload.go", "	if inlineMIMETypes[mimeType] {", '	if inlineMIMETypes[mimeType] || strings.HasPrefix(mimeType, "image/") {')],
    imports=UPIMP,
    demo=UP + '''
func demo() {
	w := NewWorld()
	defer w.Destroy()
	w.AddUser("alice", false)
	s := server(w)
	defer s.Close()
	resp, _ := do("POST", s.URL+"/uploads", "<svg/>", "Content-Type", "image/svg+xml", "Content-Disposition", "attachment; filename=a.svg")
	if resp.StatusCode != 201 {
		fail("refused: %v", resp.Status)
	}
	resp, _ = do("GET", s.URL+"/uploads/"+strings.TrimPrefix(resp.Header.Get("Location"), "/uploads/"), "")
	if d := resp.Header.Get("Content-Disposition"); !strings.HasPrefix(d, "attachment") {
		fail("served as %q", d)
	}
}
''')

bug(id="upload-origin-parent", property="P18",
    needs="a page on a subdomain of the bouncer's host, which is not among the origins configured, asking for uploads",
    breaks="the page is let in as if the origin was the bouncer's own",
    edits=[("fileupload/fileupload.go", "	if !strings.EqualFold(u.Host, req.Host) && !h.checkOrigin(u.Host) {",
            "	if !strings.HasSuffix(strings.ToLower(u.Host), strings.ToLower(req.Host)) && !h.checkOrigin(u.Host) {")],
    imports=UPIMP,
    demo=UP + '''
func demo() {
	w := NewWorld()
	defer w.Destroy()
	w.AddUser("alice", false)
	s := server(w)
	defer s.Close()
	host := strings.TrimPrefix(s.URL, "http://")
	resp, _ := do("POST", s.URL+"/uploads", "hello", "Origin", "https://evil-"+host)
	if resp.StatusCode != 403 {
		fail("let in: %v", resp.Status)
	}
}
''')

bug(id="ident-other-host", property="P19",
    needs="an ident query from a host other than the one the connection is with, naming the ports of that connection",
    breaks="the host is told who the connection belongs to",
    edits=[("identd/identd.go", '''	return &identKey{
		remoteHost: remoteHost,
''', '''	_ = remoteHost
	return &identKey{
'''), ("identd/identd.go", '''		k := identKey{
			remoteHost: remoteHost,
''', '''		_ = remoteHost
		k := identKey{
''')],
    imports=["bufio", "net", "codeberg.org/emersion/soju/identd"],
    demo='''
func demo() {
	s := identd.New()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go s.Serve(ln)
	s.Store("127.0.0.2:6697", "127.0.0.1:1234", "alice")
	for from, want := range map[string]string{"127.0.0.2": "USERID", "127.0.0.3": "NO-USER"} {
		d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(from)}}
		c, err := d.Dial("tcp", ln.Addr().String())
		must(err)
		fmt.Fprintf(c, "1234, 6697\\r\\n")
		l, err := bufio.NewReader(c).ReadString('\\n')
		must(err)
		c.Close()
		if !strings.Contains(l, want) {
			fail("%v is told %q", from, l)
		}
	}
}
''')

bug(id="ident-kept", property="P19",
    needs="a network which is disconnected, and an ident query for its ports afterwards",
    breaks="the entry outlives the connection: whoever gets the port next is taken for the user",
    edits=[("user.go", "net.user.srv.Identd.Delete(uc.RemoteAddr().String(), uc.LocalAddr().String())",
                       "net.user.srv.Identd.Delete(uc.LocalAddr().String(), uc.RemoteAddr().String())")],
    imports=["bufio", "net", "codeberg.org/emersion/soju/identd"],
    demo='''
func demo() {
	w := NewWorld()
	defer w.Destroy()
	w.AddUser("alice", false)
	n := NewFakeNet("N")
	w.Start()
	s := identd.New()
	w.Srv.Identd = s
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go s.Serve(ln)
	ask := func(q string) string {
		c, err := net.Dial("tcp", ln.Addr().String())
		must(err)
		defer c.Close()
		fmt.Fprintf(c, "%s\\r\\n", q)
		l, err := bufio.NewReader(c).ReadString('\\n')
		must(err)
		return l
	}
	c, err := w.Connect(Login{Key: "c", User: "alice"})
	must(err)
	c.Send("PRIVMSG BouncerServ :network create -name n1 -addr " + n.Addr)
	uc, err := n.WaitUp()
	must(err)
	must(w.Sync())
	_, lp, err := net.SplitHostPort(uc.conn.RemoteAddr().String())
	must(err)
	_, rp, err := net.SplitHostPort(uc.conn.LocalAddr().String())
	must(err)
	q := lp + ", " + rp
	if l := ask(q); !strings.Contains(l, "USERID") {
		fail("not known while connected: %q", l)
	}
	must(w.NetDown(n))
	must(w.Sync())
	if l := ask(q); !strings.Contains(l, "NO-USER") {
		fail("still known: %q", l)
	}
}
''')

