package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"mime"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/fileupload"
	"golang.org/x/crypto/bcrypt"
	"gopkg.in/irc.v4"
)

// soju is the program itself, run in a scratch directory.
type sojuProc struct {
	dir   string
	cmd   *exec.Cmd
	log   *logBuffer
	ended chan struct{}
}

func (p *sojuProc) config(lines ...string) {
	tmp := filepath.Join(p.dir, "config.new")
	if err := os.WriteFile(tmp, []byte(strings.Join(lines, "\n")+"\n"), 0600); err != nil {
		fatal("%v", err)
	}
	if err := os.Rename(tmp, filepath.Join(p.dir, "config")); err != nil {
		fatal("%v", err)
	}
}

// launch runs the program.
func (p *sojuProc) launch() error {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	if _, err := os.Stat(exe + ".soju"); err != nil {
		fatal("the program was not built: %v", err)
	}
	if p.log == nil {
		p.log = &logBuffer{}
	}
	p.cmd = exec.Command(exe+".soju", "-config", filepath.Join(p.dir, "config"), "-debug")
	p.cmd.Dir = p.dir
	p.cmd.Stdout, p.cmd.Stderr = p.log, p.log
	p.cmd.SysProcAttr = procAttr()
	if err := p.cmd.Start(); err != nil {
		fatal("%v", err)
	}
	ended := make(chan struct{})
	p.ended = ended
	cmd := p.cmd
	go func() {
		cmd.Wait()
		close(ended)
	}()
	return nil
}

// start runs the program until the sockets named exist.
func (p *sojuProc) start(socks ...string) error {
	for _, s := range socks {
		os.Remove(s)
	}
	if err := p.launch(); err != nil {
		return err
	}
	deadline := time.Now().Add(syncTimeout)
	for _, s := range socks {
		for {
			c, err := net.Dial("unix", s)
			if err == nil {
				c.Close()
				break
			}
			select {
			case <-p.ended:
				return fmt.Errorf("the program ended: %s", tail(p.log.String(), 600))
			default:
			}
			if time.Now().After(deadline) {
				return fmt.Errorf("the program does not listen on %s", s)
			}
			time.Sleep(500 * time.Microsecond)
		}
	}
	return nil
}

func (p *sojuProc) stop(sig os.Signal) error {
	if p.cmd == nil {
		return nil
	}
	p.cmd.Process.Signal(sig)
	select {
	case <-p.ended:
		p.cmd = nil
		return nil
	case <-time.After(syncTimeout):
		return fmt.Errorf("the program does not end")
	}
}

// upload replays Upload.tla.
type upload struct {
	w     *World
	p     *sojuProc
	http  string // socket
	admin string
	on    bool
	files []upFile
	n     int
}

type upFile struct {
	url  string
	path string
	user string
	body []byte
}

func init() {
	modules["upload"] = func(init Step) (Module, error) {
		m := &upload{w: NewWorld(), on: true}
		for _, name := range []string{"alice", "bob", "..", "nopw"} {
			u := m.w.AddUser(name, name == "alice")
			if name != "nopw" {
				u.Password = upPassword()
			}
			if err := m.w.DB.StoreUser(ctxBG, u); err != nil {
				fatal("%v", err)
			}
		}
		m.w.DB.Close()
		for _, d := range []string{"data/up", "data", "."} {
			os.MkdirAll(filepath.Join(m.w.Dir, d), 0700)
			if d != "data/up" {
				os.WriteFile(filepath.Join(m.w.Dir, d, "secret"), []byte("secret"), 0600)
			}
		}
		m.p = &sojuProc{dir: m.w.Dir}
		m.http, m.admin = filepath.Join(m.w.Dir, "h.sock"), filepath.Join(m.w.Dir, "a.sock")
		m.config()
		return m, m.start()
	}
}

var upHash struct {
	sync.Once
	h string
}

// upPassword is the hash of "pw".
func upPassword() string {
	upHash.Do(func() {
		h, err := bcrypt.GenerateFromPassword([]byte("pw"), bcrypt.DefaultCost)
		if err != nil {
			fatal("%v", err)
		}
		upHash.h = string(h)
	})
	return upHash.h
}

func (m *upload) config() {
	l := []string{"hostname up.example", "db sqlite3 " + m.w.DBPath, "listen http+unix://" + m.http, "listen unix+admin://" + m.admin, "message-store memory", "http-origin ok.example *.sub.example"}
	if m.on {
		l = append(l, "file-upload fs "+filepath.Join(m.w.Dir, "data", "up"))
	}
	m.p.config(l...)
}

// start runs the program until it is ready.
func (m *upload) start() error {
	if err := m.p.start(m.http, m.admin); err != nil {
		return err
	}
	for deadline := time.Now().Add(syncTimeout); time.Now().Before(deadline); time.Sleep(time.Millisecond) {
		if ok, err := m.serv("user status nopw"); err != nil {
			return err
		} else if ok {
			return nil
		}
	}
	return fmt.Errorf("the program does not start")
}

// serv runs a command as an administrator, and tells whether it worked.
func (m *upload) serv(cmd string) (bool, error) {
	c, err := net.Dial("unix", m.admin)
	if err != nil {
		return false, err
	}
	defer c.Close()
	p := newPeer("admin", c, nil)
	p.Send("BOUNCERSERV :" + cmd)
	msg, err := p.WaitMsg(func(msg *irc.Message) bool { return msg.Command == "FAIL" || msg.Command == "BOUNCERSERV" })
	if err != nil {
		return false, err
	}
	return msg.Command == "BOUNCERSERV", nil
}

func (m *upload) ServerLog() string { return m.p.log.String() }
func (m *upload) Close() {
	m.p.stop(os.Kill)
	m.w.Destroy()
}

type upReq struct {
	method, path string
	head         []string
	body         io.Reader
	size         int64
	chunked, cut bool
}

type upResp struct {
	code int
	head http.Header
	body []byte
}

// do performs one request on a connection of its own.
func (m *upload) do(r upReq) (upResp, error) {
	c, err := net.Dial("unix", m.http)
	if err != nil {
		return upResp{}, fmt.Errorf("failed to connect: %w", err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s %s HTTP/1.1\r\nHost: up.example\r\n", r.method, r.path)
	for _, h := range r.head {
		sb.WriteString(h + "\r\n")
	}
	if r.body != nil {
		if r.chunked {
			sb.WriteString("Transfer-Encoding: chunked\r\n")
		} else {
			fmt.Fprintf(&sb, "Content-Length: %d\r\n", r.size)
		}
	}
	sb.WriteString("Connection: close\r\n\r\n")
	if _, err := io.WriteString(c, sb.String()); err != nil {
		return upResp{}, err
	}
	if r.body != nil {
		send := func() {
			if r.chunked {
				buf := make([]byte, 1<<16)
				for {
					n, err := r.body.Read(buf)
					if n > 0 {
						if _, err := fmt.Fprintf(c, "%x\r\n%s\r\n", n, buf[:n]); err != nil {
							return
						}
					}
					if err != nil {
						break
					}
				}
				if !r.cut {
					io.WriteString(c, "0\r\n\r\n")
				}
			} else {
				io.Copy(c, r.body)
			}
		}
		if r.cut {
			send()
			c.(*net.UnixConn).CloseWrite()
		} else {
			go send()
		}
	}
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: r.method})
	if err != nil {
		return upResp{}, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil && r.method != "HEAD" {
		return upResp{}, err
	}
	return upResp{resp.StatusCode, resp.Header, b}, nil
}

const upMax = 50 * 1024 * 1024

type zeros struct{}

func (zeros) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 'z'
	}
	return len(p), nil
}

func (m *upload) body(kind string) []byte {
	s := fmt.Sprintf("number %d of these", m.n)
	switch kind {
	case "png":
		s = "\x89PNG\x0D\x0A\x1A\x0A" + s
	case "html":
		s = "<!DOCTYPE HTML><html><script>" + s
	case "bin":
		s = "\x00\x01\x02\xff\xfe" + s
	case "xml":
		s = "<?xml version=\"1.0\"?><svg xmlns=\"http://www.w3.org/2000/svg\"><script>" + s
	case "empty":
		s = ""
	case "max":
		b := bytes.Repeat([]byte("z"), upMax)
		copy(b, s)
		return b
	case "cut":
		s = strings.Repeat("half of it ", 9000)
	}
	return []byte(s)
}

func (m *upload) origin(st Step) []string {
	switch o := st.Str("origin"); o {
	case "":
		return nil
	case "same":
		return []string{"Origin: https://up.example"}
	default:
		return []string{"Origin: " + o}
	}
}

// letin tells whether the response lets pages of the origin in.
func (m *upload) letin(st Step, r upResp) interface{} {
	o := ""
	if l := m.origin(st); l != nil {
		o = strings.TrimPrefix(l[0], "Origin: ")
	}
	csp := r.head.Get("Content-Security-Policy")
	for _, s := range []string{"sandbox", "default-src 'none'", "script-src 'none'"} {
		if !strings.Contains(csp, s) {
			return "Content-Security-Policy: " + csp
		}
	}
	acao := r.head.Get("Access-Control-Allow-Origin")
	if o == "" {
		if acao != "" {
			return "Access-Control-Allow-Origin: " + acao
		}
		return true
	}
	if acao == "" {
		return false
	}
	if acao != o || r.head.Get("Access-Control-Allow-Credentials") != "true" || !strings.Contains(r.head.Get("Vary"), "Origin") {
		return fmt.Sprintf("%v", r.head)
	}
	return true
}

var upToken = regexp.MustCompile(`^([0-9a-f]{8}|[0-9a-f]{16})(-(.*)|(\..*)|)$`)

// stored tells the name a file is stored with: * stands for its token alone.
func stored(base string) (string, bool) {
	l := upToken.FindStringSubmatch(base)
	if l == nil {
		return base, false
	}
	if strings.HasPrefix(l[2], "-") {
		return l[3], true
	}
	return "*" + l[2], len(l[1]) == 16
}

// token is the random part of a location.
func token(loc string) string {
	base := loc[strings.LastIndex(loc, "/")+1:]
	i := strings.IndexAny(base, "-.")
	if i < 0 {
		return base
	}
	return base[:i]
}

func (m *upload) disk() []interface{} {
	res := []interface{}{}
	seen := make(map[string]bool)
	for i, f := range m.files {
		b, err := os.ReadFile(f.path)
		seen[f.path] = true
		if err == nil && bytes.Equal(b, f.body) {
			res = append(res, i+1)
		}
	}
	filepath.WalkDir(m.w.Dir, func(path string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() || seen[path] || d.Name() == "secret" {
			return nil
		}
		rel, _ := filepath.Rel(m.w.Dir, path)
		if strings.HasPrefix(rel, "data/up/") || filepath.Dir(rel) != "." {
			res = append(res, "other file: "+rel)
		} else if ok, _ := stored(rel); ok != "" && upToken.MatchString(rel) {
			res = append(res, "other file: "+rel)
		}
		return nil
	})
	return res
}

func (m *upload) Do(st Step) (interface{}, error) {
	m.n++
	res := make(map[string]interface{})
	switch st.Str("op") {
	case "upload":
		head := m.origin(st)
		basic := func(u, p string) {
			head = append(head, "Authorization: Basic "+base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
		}
		u := st.Str("u")
		switch st.Str("auth") {
		case "none":
		case "wrong":
			basic(u, "nope")
		case "nouser":
			basic("nobody", "pw")
		case "empty":
			basic(u, "")
		case "nopw":
			basic("nopw", "")
		case "case":
			basic(strings.ToUpper(u), "pw")
		case "dots":
			basic("..", "pw")
		case "bobbad":
			basic("bob", "older")
		case "bearer":
			head = append(head, "Authorization: Bearer pw")
		case "digest":
			head = append(head, "Authorization: Digest username="+u)
		case "basicjunk":
			head = append(head, "Authorization: Basic !!!")
		default:
			basic(u, "pw")
		}
		if t := st.Str("type"); t != "" {
			head = append(head, "Content-Type: "+t)
		}
		if n := st.Str("name"); n == "LONG" {
			head = append(head, "Content-Disposition: attachment; filename="+strings.Repeat("n", 300)+".png")
		} else if n != "" {
			head = append(head, "Content-Disposition: "+n)
		}
		body := m.body(st.Str("body"))
		r := upReq{method: st.Str("method"), path: st.Str("path"), head: head, body: bytes.NewReader(body), size: int64(len(body)), chunked: st.Bool("chunked")}
		switch st.Str("body") {
		case "over":
			r.body, r.size = io.LimitReader(zeros{}, upMax+1), upMax+1
		case "cut":
			r.size += 10
			r.cut = true
		}
		resp, err := m.do(r)
		if err != nil {
			return nil, err
		}
		res["code"], res["user"], res["name"] = resp.code, "", ""
		res["letin"] = m.letin(st, resp)
		loc := resp.head.Get("Location")
		if resp.code == 201 {
			lu, err := url.Parse(loc)
			if err != nil || lu.IsAbs() || !strings.HasPrefix(lu.Path, "/uploads/") {
				return nil, fmt.Errorf("bad location %q", loc)
			}
			l := strings.Split(strings.TrimPrefix(lu.EscapedPath(), "/uploads/"), "/")
			if len(l) != 2 {
				return nil, fmt.Errorf("bad location %q", loc)
			}
			l[0], _ = url.PathUnescape(l[0])
			l[1], _ = url.PathUnescape(l[1])
			name, ok := stored(l[1])
			if !ok {
				return nil, fmt.Errorf("bad location %q", loc)
			}
			for _, f := range m.files {
				if f.url == loc || token(f.url) == token(loc) {
					return nil, fmt.Errorf("location %q is used again: %q", f.url, loc)
				}
			}
			res["user"], res["name"] = l[0], strings.ReplaceAll(name, "été", "%e")
			m.files = append(m.files, upFile{loc, filepath.Join(m.w.Dir, "data", "up", l[0], l[1]), l[0], body})
		} else if loc != "" {
			res["name"] = loc
		}
	case "fetch":
		f := m.files[st.Int("i")-1]
		r := upReq{method: "GET", path: f.url, head: m.origin(st)}
		want := f.body
		switch st.Str("how") {
		case "HEAD":
			r.method = "HEAD"
		case "RANGE":
			r.head = append(r.head, "Range: bytes=2-9")
			if len(want) > 10 {
				want = want[2:10]
			}
		}
		resp, err := m.do(r)
		if err != nil {
			return nil, err
		}
		res["code"], res["letin"], res["meta"], res["body"] = resp.code, m.letin(st, resp), []string{}, ""
		if resp.code == 200 || resp.code == 206 {
			mt, _, _ := mime.ParseMediaType(resp.head.Get("Content-Type"))
			disp, params, err := mime.ParseMediaType(resp.head.Get("Content-Disposition"))
			if err != nil {
				disp = "bad: " + resp.head.Get("Content-Disposition")
			}
			name := params["filename"]
			if upToken.MatchString(name) && strings.HasPrefix(filepath.Base(f.path), name[:8]) {
				name, _ = stored(name)
			}
			res["meta"] = map[string]interface{}{"name": strings.ReplaceAll(name, "été", "%e"), "type": mt, "disp": disp}
			res["body"] = "same"
			if r.method == "HEAD" {
				res["body"] = "none"
				if len(resp.body) > 0 || resp.head.Get("Content-Length") != fmt.Sprint(len(want)) {
					res["body"] = "not none"
				}
			} else if !bytes.Equal(resp.body, want) {
				res["body"] = fmt.Sprintf("%d bytes: %.60q", len(resp.body), resp.body)
			}
		}
	case "miss":
		p := st.Str("path")
		if i := st.Int("i"); i > 0 {
			f := m.files[i-1]
			p = strings.Replace(p, "FILE", f.url, 1)
			other := "bob"
			if f.user == "bob" {
				other = "alice"
			}
			switch p {
			case "OTHERUSER":
				p = strings.Replace(f.url, f.user, other, 1)
			case "NOTOKEN":
				b := filepath.Base(f.path)
				p = "/uploads/" + f.user + "/" + url.PathEscape(b[1:])
			}
		}
		if p[0] != '/' {
			p = "/uploads/x"
		}
		resp, err := m.do(upReq{method: st.Str("method"), path: p})
		if err != nil {
			return nil, err
		}
		res["served"] = resp.code/100 == 2 || resp.head.Get("Content-Disposition") != ""
		// The handler alone, without what tidies paths before it.
		if path, err := url.PathUnescape(p); err == nil {
			up, err := fileupload.New("fs", filepath.Join(m.w.Dir, "data", "up"))
			if err != nil {
				return nil, err
			}
			req := httptest.NewRequest(st.Str("method"), "/", nil)
			req.URL.Path = path
			rec := httptest.NewRecorder()
			(&fileupload.Handler{Uploader: up}).ServeHTTP(rec, req)
			if rec.Code/100 == 2 {
				res["served"] = true
			}
		}
	case "preflight":
		resp, err := m.do(upReq{method: "OPTIONS", path: "/uploads", head: append(m.origin(st), "Access-Control-Request-Method: POST")})
		if err != nil {
			return nil, err
		}
		res["code"], res["letin"] = resp.code, m.letin(st, resp)
	case "bob":
		cmd := "user update bob -password pw -enabled true"
		switch st.Str("b") {
		case "disabled":
			cmd = "user update bob -password pw -enabled false"
		case "other":
			cmd = "user update bob -password another -enabled true"
		}
		done, err := m.serv(cmd)
		if err != nil {
			return nil, err
		}
		res["done"] = done
	case "reload":
		m.on = st.Bool("on")
		m.config()
		m.p.cmd.Process.Signal(sigHUP)
		res["done"] = false
		for deadline := time.Now().Add(5 * time.Second); time.Now().Before(deadline); time.Sleep(time.Millisecond) {
			resp, err := m.do(upReq{method: "OPTIONS", path: "/uploads"})
			if err != nil {
				return nil, err
			}
			if (resp.code == 204) == m.on {
				res["done"] = true
				break
			}
		}
	case "restart":
		var sig os.Signal = sigTERM
		if st.Bool("kill") {
			sig = os.Kill
		}
		if err := m.p.stop(sig); err != nil {
			return nil, err
		}
		if err := m.start(); err != nil {
			return nil, err
		}
		res["done"] = true
	default:
		return nil, fmt.Errorf("unknown step %q", st.Str("op"))
	}
	res["disk"] = m.disk()
	return res, nil
}
