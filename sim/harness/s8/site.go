package main

import (
	"archive/tar"
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"hash/fnv"
	"html/template"
	"io"
	real "net/http"
	"net/url"
	"path"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/znet"
	"github.com/vivint/rothko/internal/zsim/znet_http"
	"github.com/vivint/rothko/internal/zsim/zos"
	"github.com/vivint/rothko/ui"
)

// SiteFile is a file of the site.
type SiteFile struct {
	Path string `json:"path"`
	Size int    `json:"size"`
	Tmpl int    `json:"tmpl"` // what is in it besides text
}

type SiteReq struct {
	Path   string `json:"path"`
	Query  string `json:"query,omitempty"`
	Method string `json:"method,omitempty"`
	Range  []int  `json:"range,omitempty"` // first and last byte
	Auth   string `json:"auth,omitempty"`  // none bad
	Wait   int64  `json:"wait,omitempty"`  // before it
	Slow   int64  `json:"slow,omitempty"`  // between reads
	Abort  int    `json:"abort,omitempty"` // after so many bytes of the answer
}

type SiteClient struct {
	At   int64      `json:"at,omitempty"`
	Reqs []*SiteReq `json:"reqs"`
}

type SitePlan struct {
	Files   []*SiteFile   `json:"files"`
	Dirs    bool          `json:"dirs"` // the archive has entries for directories
	Dot     bool          `json:"dot"`  // its names begin with ./
	Nil     bool          `json:"nil,omitempty"`
	Cut     int           `json:"cut,omitempty"` // thousandths of the archive that are there
	Auth    bool          `json:"auth,omitempty"`
	Clients []*SiteClient `json:"clients"`
	Frag    float64       `json:"frag"`
	Short   float64       `json:"short"`
	Delay   int64         `json:"delay"`
	Window  int           `json:"window,omitempty"`
}

var siteNames = []string{
	"index.html", "css/main.css", "js/app.js", "about.html", "docs/index.html", "docs/page.html", "docs/deep/er/page.html",
	"data.txt", "favicon.ico", "a b/c d.html", "\u00e9t\u00e9/x.txt", "html", "x.html/y.txt", "empty/.keep", "img/" + strings.Repeat("long", 40) + ".txt", "js/app.html.js", "api/other.html", "api/extra.txt", "a%2fb.txt",
}

var siteQueries = []string{"", "", "metric=a.b.c", "metric=%3Cscript%3Ealert(1)%3C/script%3E", "metric=%22%3E&width=3", "a=1&metric=first&metric=second", "metric", "metric=%zz&x=y", "metric=a;b=c", "x=" + strings.Repeat("y", 3000) + "&metric=end", "metric=%7B%7B.query%7D%7D"}

func genSite(r *lib.Rand, deep bool) *SitePlan {
	p := &SitePlan{Dirs: r.P(0.7), Dot: r.P(0.5), Nil: r.P(0.04), Auth: r.P(0.25)}
	if r.P(0.05) {
		p.Cut = r.Range(1, 990)
	}
	p.Frag = []float64{0, 0.3, 0.9}[r.N(3)]
	p.Short = []float64{0, 0.3}[r.N(2)]
	p.Delay = int64(r.Of(0, 0, 1, r.Log(5000000)))
	p.Window = r.Of(0, 0, 64, 1000, 5000)
	big := r.P(0.3) // than what is read from a file at once
	if big {
		p.Window = r.Of(0, 3000, 9000)
	}
	pause := []float64{0, 0.1, 0.4}[r.N(3)]
	have := map[string]bool{}
	add := func(name string) {
		f := &SiteFile{Path: name, Size: r.Of(0, 1, r.Log(300), r.Log(9000)), Tmpl: r.Of(0, 1, 1, 2, 4)}
		if big && r.P(0.5) {
			f.Size = r.Range(30000, 80000)
		}
		if strings.HasSuffix(name, ".html") && r.P(0.05) {
			f.Tmpl = 3
		}
		if strings.HasSuffix(name, ".html") && r.P(0.1) {
			f.Tmpl = 5
		}
		have[name] = true
		p.Files = append(p.Files, f)
	}
	if r.P(0.9) {
		add("index.html")
	}
	for n := r.Range(1, 10); n > 0; n-- {
		if x := siteNames[r.N(len(siteNames))]; !have[x] {
			add(x)
		}
	}
	if r.P(0.1) {
		// in the archive twice, the later one counts
		add(p.Files[r.N(len(p.Files))].Path)
	}
	for i := range p.Files {
		j := r.N(i + 1)
		p.Files[i], p.Files[j] = p.Files[j], p.Files[i]
	}
	nc, nr := r.Range(1, 4), 5
	if deep {
		nc, nr = r.Range(1, 7), 12
	}
	// often the same page with different queries at once
	hot := p.Files[r.N(len(p.Files))].Path
	for i := 0; i < nc; i++ {
		c := &SiteClient{}
		if r.P(pause) {
			c.At = int64(r.Log(1000000))
		}
		for k := r.Range(1, nr); k > 0; k-- {
			q := &SiteReq{Query: siteQueries[r.N(len(siteQueries))]}
			f := p.Files[r.N(len(p.Files))].Path
			if r.P(0.4) {
				f = hot
			}
			switch r.Pick(40, 10, 10, 5, 10, 5, 5) {
			case 0:
				q.Path = "/" + f
			case 1:
				q.Path = "/" // the default page
			case 2:
				q.Path = path.Dir("/" + f)
				if r.P(0.5) && q.Path != "/" {
					q.Path += "/"
				}
			case 3:
				q.Path = r.OfS("/nowhere", "/nowhere.html", "/no/where/", "/index.htm", "/api", "/api/", "/api/nothing", "/css", "/..", "/x.html")
			case 4:
				q.Path = r.OfS("/../"+f, "/./"+f, "//"+f, "/css/../"+f, "/"+f+"/", "/"+f+"/more", "/"+f+"/../"+f)
			case 5:
				q.Path = "/" + strings.ToUpper(f)
			case 6:
				q.Path = "/index.html"
			}
			if r.P(0.06) {
				q.Method = r.OfS("HEAD", "POST", "PUT", "DELETE", "OPTIONS")
			}
			if r.P(0.12) {
				a := r.Log(400) - 1
				q.Range = []int{a, a + r.Log(400) - 1}
			}
			if p.Auth && r.P(0.3) {
				q.Auth = r.OfS("none", "bad", "user", "empty")
			}
			if r.P(pause) {
				q.Wait = int64(r.Log(3000000))
			}
			if r.P(pause) {
				q.Slow = int64(r.Log(1000000))
			}
			if r.P(0.08) {
				q.Abort = r.Log(3000)
			}
			c.Reqs = append(c.Reqs, q)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

func (p *SitePlan) shrink() (out []*SitePlan) {
	with := func(f func(q *SitePlan)) {
		q := *p
		q.Files = append([]*SiteFile(nil), p.Files...)
		q.Clients = nil
		for _, c := range p.Clients {
			d := *c
			d.Reqs = append([]*SiteReq(nil), c.Reqs...)
			q.Clients = append(q.Clients, &d)
		}
		f(&q)
		out = append(out, &q)
	}
	for i, c := range p.Clients {
		i, c := i, c
		with(func(q *SitePlan) { q.Clients = append(q.Clients[:i], q.Clients[i+1:]...) })
		for j, x := range c.Reqs {
			j, x := j, x
			with(func(q *SitePlan) { q.Clients[i].Reqs = append(q.Clients[i].Reqs[:j], q.Clients[i].Reqs[j+1:]...) })
			if x.Wait != 0 || x.Slow != 0 || x.Abort != 0 || x.Range != nil {
				with(func(q *SitePlan) {
					y := *x
					y.Wait, y.Slow, y.Abort, y.Range = 0, 0, 0, nil
					q.Clients[i].Reqs[j] = &y
				})
			}
			if x.Query != "" {
				with(func(q *SitePlan) { y := *x; y.Query = ""; q.Clients[i].Reqs[j] = &y })
			}
		}
	}
	for i, f := range p.Files {
		i, f := i, f
		with(func(q *SitePlan) { q.Files = append(q.Files[:i], q.Files[i+1:]...) })
		if f.Size > 10 || f.Tmpl != 0 {
			with(func(q *SitePlan) { g := *f; g.Size, g.Tmpl = 3, 0; q.Files[i] = &g })
		}
	}
	if p.Frag > 0 || p.Short > 0 || p.Window > 0 {
		with(func(q *SitePlan) { q.Frag, q.Short, q.Window = 0, 0, 0 })
	}
	if p.Auth {
		with(func(q *SitePlan) { q.Auth = false })
	}
	return
}

// content is the text of the i-th file.
func (p *SitePlan) content(i int) string {
	f := p.Files[i]
	s := ""
	switch f.Tmpl {
	case 1:
		s = "<p>{{ .query }}|{{ .metric }}|{{ if .dev }}dev{{ else }}prod{{ end }}</p>"
	case 2:
		s = "<html>{{- if .metric }}<meta content=\"{{ .metric }}\"><img src=\"/api/render?{{ .query }}&padding=5\">{{- end }}</html>"
	case 3:
		s = "<p>{{ .metric </p>"
	case 5:
		// fails for some requests, in the middle
		s = "<p>{{ .query }}|" + strings.Repeat("x", f.Size%50) + "{{ if .metric }}{{ index .metric 5 }}{{ end }}</p>"
	case 4:
		s = "<script>var m = {{ .metric }}, q = {{ .query }};</script>"
	}
	b := make([]byte, f.Size)
	for j := range b {
		b[j] = "abcdefghijklmnopqrstuvwxyz0123456789\n "[(i*7+j*j%31+j)%38]
	}
	return s + string(b)
}

// archive packs the site.
func (p *SitePlan) archive() []byte {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	tw := tar.NewWriter(gz)
	pre := ""
	if p.Dot {
		pre = "./"
	}
	done := map[string]bool{}
	dir := func(d string) {
		if p.Dirs && !done[d] {
			done[d] = true
			tw.WriteHeader(&tar.Header{Typeflag: tar.TypeDir, Name: d, Mode: 0755, ModTime: time.Unix(1500000000, 0)})
		}
	}
	if p.Dot {
		dir("./")
	}
	for i, f := range p.Files {
		for k, c := range f.Path {
			if c == '/' {
				dir(pre + f.Path[:k+1])
			}
		}
		c := p.content(i)
		tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: pre + f.Path, Size: int64(len(c)), Mode: 0644, ModTime: time.Unix(1500000000+int64(i), 0)})
		io.WriteString(tw, c)
	}
	tw.Close()
	gz.Close()
	b := buf.Bytes()
	if p.Cut > 0 {
		b = b[:len(b)*p.Cut/1000]
	}
	return b
}

// whole reports whether everything is in the archive: what is cut off may be
// its very end, that nobody needs.
func whole(b []byte) bool {
	gz, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return false
	}
	for tr := tar.NewReader(gz); ; {
		_, err := tr.Next()
		if err == nil {
			_, err = io.Copy(io.Discard, tr)
		}
		if err == io.EOF {
			return true
		}
		if err != nil {
			return false
		}
	}
}

const (
	siteUser = "admin"
	sitePass = "secret words"
)

type siteWorld struct {
	s     *zsim.Sim
	prop  string
	plan  *SitePlan
	files map[string]string
	dirs  map[string]bool
	p     *zsim.Proc
	panic string
	h     uint64
	left  int
	wq    zsim.WaitQ
}

func (w *siteWorld) fail(kind, f string, args ...interface{}) {
	lib.Fail(w.prop, []string{"C24"}, kind, f, args...)
}

// render is what the page must look like for the query.
func render(text, raw string) (string, bool) {
	t, err := template.New("").Parse(text)
	if err != nil {
		return "", false
	}
	v, _ := url.ParseQuery(raw)
	var b bytes.Buffer
	if err := t.Execute(&b, map[string]interface{}{"query": raw, "metric": v.Get("metric"), "dev": false}); err != nil {
		return "", false
	}
	return b.String(), true
}

// answer is what may be answered: any of the bodies, in whole or as asked for.
type answer struct {
	code   int
	bodies []string
	where  string // of a redirect
	why    string
}

func (w *siteWorld) page(name, raw string) []answer {
	text := w.files[name]
	if !strings.HasSuffix(name, ".html") {
		return []answer{{code: 200, bodies: []string{text}, why: "the file " + name}}
	}
	if b, ok := render(text, raw); ok {
		return []answer{{code: 200, bodies: []string{b}, why: "the page " + name}}
	}
	return []answer{{code: 500, why: "the broken page " + name}}
}

// def is the answer for everything that is not there.
func (w *siteWorld) def(raw string) []answer {
	if _, ok := w.files["/index.html"]; !ok {
		return []answer{{code: 404, why: "nothing"}}
	}
	l := w.page("/index.html", raw)
	return append(l, answer{code: 200, bodies: []string{w.files["/index.html"]}, why: "the default page"})
}

func (w *siteWorld) expect(q *SiteReq) []answer {
	p := w.plan
	if p.Auth && q.Auth != "" {
		return []answer{{code: 401, why: "wrong credentials"}}
	}
	if q.Method != "" {
		return []answer{{code: 405, why: "method " + q.Method}}
	}
	if p.Nil {
		if q.Path == "/" || q.Path == "/index.html" {
			return []answer{{code: 200, why: "the warning"}}
		}
		return []answer{{code: 404, why: "no site"}}
	}
	if strings.HasSuffix(q.Path, "/index.html") {
		return []answer{{code: 301, where: "./", why: "a directory's page"}}
	}
	name := path.Clean(q.Path)
	_, file := w.files[name]
	slash := strings.HasSuffix(q.Path, "/")
	switch {
	case file && slash:
		l := []answer{{code: 301, where: "../" + path.Base(q.Path), why: "a file"}}
		if x := w.page(name, q.Query)[0]; x.code == 500 {
			l = append(l, x)
		}
		return l
	case file:
		return w.page(name, q.Query)
	case w.dirs[name] && !slash:
		return []answer{{code: 301, where: path.Base(q.Path) + "/", why: "a directory"}}
	case w.dirs[name]:
		if _, ok := w.files[strings.TrimSuffix(name, "/")+"/index.html"]; ok {
			l := w.page(strings.TrimSuffix(name, "/")+"/index.html", q.Query)
			if l[0].code == 500 {
				l = append(l, answer{code: 200, where: "list", why: "a listing of " + name})
			}
			return l
		}
		if _, ok := w.files["/index.html"]; ok {
			l := w.def(q.Query)
			if l[0].code == 500 {
				l = append(l, answer{code: 200, where: "list", why: "a listing of " + name})
			}
			return l
		}
		return []answer{{code: 200, where: "list", why: "a listing of " + name}}
	case slash:
		// a file is not redirected to if it is the default page
		if _, ok := w.files["/index.html"]; ok {
			l := w.def(q.Query)
			return append(l, answer{code: 301, where: "../" + path.Base(q.Path), why: "the default page"})
		}
	}
	return w.def(q.Query)
}

func fileSet(m map[string]string) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

// check compares an answer with what it must be.
func (w *siteWorld) check(q *SiteReq, resp *real.Response, body []byte) {
	what := fmt.Sprintf("%s %s?%.60s", q.Method, q.Path, q.Query)
	var why []string
	for _, a := range w.expect(q) {
		why = append(why, fmt.Sprintf("%s (%d)", a.why, a.code))
		if a.code != 200 {
			if resp.StatusCode != a.code {
				continue
			}
			if a.where != "" {
				loc := resp.Header.Get("Location")
				if loc == "" {
					continue
				}
				to, raw, _ := strings.Cut(loc, "?")
				plain, _ := url.PathUnescape(to)
				want := a.where
				if raw != q.Query || to != want && plain != want {
					w.fail("wrong-redirect", "%s was redirected to %q instead of %q", what, loc, want)
				}
			}
			if a.code == 401 || a.code == 405 || a.code == 404 || a.code == 500 {
				for i := range w.plan.Files {
					c := w.plan.content(i)
					if len(c) > 100 && bytes.Contains(body, []byte(c[50:])) {
						w.fail("leak", "the answer %d to %s contains the file %s", a.code, what, w.plan.Files[i].Path)
					}
				}
			}
			zsim.Probe(fmt.Sprint("answered with ", a.code))
			return
		}
		if w.plan.Nil {
			if resp.StatusCode == 200 && bytes.Contains(body, []byte("not generated the ui")) {
				return
			}
			continue
		}
		if a.where == "list" {
			if resp.StatusCode != 200 {
				continue
			}
			w.listing(q, body)
			return
		}
		for _, b := range a.bodies {
			if q.Range == nil || len(b) == 0 {
				if resp.StatusCode == 200 && string(body) == b {
					zsim.Probe("answered with " + strings.SplitN(a.why, " /", 2)[0])
					return
				}
				continue
			}
			lo, hi := q.Range[0], q.Range[1]
			if lo >= len(b) {
				if resp.StatusCode == 416 {
					zsim.Probe("answered with 416")
					return
				}
				continue
			}
			if hi >= len(b) {
				hi = len(b) - 1
			}
			if resp.StatusCode == 206 && string(body) == b[lo:hi+1] && resp.Header.Get("Content-Range") == fmt.Sprintf("bytes %d-%d/%d", lo, hi, len(b)) {
				zsim.Probe("answered with a part")
				return
			}
		}
	}
	w.fail("wrong-answer", "%s (range %v, auth %q) was answered with %d and %d bytes: %s; it must be %s", what, q.Range, q.Auth, resp.StatusCode, len(body), brief(string(body)), strings.Join(why, " or "))
}

// listing checks the list of the files of a directory.
func (w *siteWorld) listing(q *SiteReq, body []byte) {
	name := path.Clean(q.Path)
	for _, m := range []map[string]bool{w.dirs, fileSet(w.files)} {
		for f := range m {
			if f == "/" || path.Dir(f) != name {
				continue
			}
			if !bytes.Contains(body, []byte((&url.URL{Path: path.Base(f)}).String())) {
				w.fail("wrong-answer", "the listing of %s does not contain %s: %s", name, path.Base(f), body)
				return
			}
		}
	}
	zsim.Probe("a listing")
}

// request sends a request and reads its answer.
func (w *siteWorld) request(c *net.TCPConn, br *bufio.Reader, q *SiteReq) (more bool) {
	s := w.s
	m := q.Method
	if m == "" {
		m = "GET"
	}
	u := &url.URL{Scheme: "http", Host: "localhost", Path: q.Path, RawQuery: q.Query}
	hr := &real.Request{Method: m, URL: u, Host: "localhost", Header: real.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if q.Range != nil {
		hr.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", q.Range[0], q.Range[1]))
	}
	if w.plan.Auth {
		switch q.Auth {
		case "":
			hr.SetBasicAuth(siteUser, sitePass)
		case "bad":
			hr.SetBasicAuth(siteUser, sitePass+"x")
		case "user":
			hr.SetBasicAuth("nobody", sitePass)
		case "empty":
			hr.SetBasicAuth("", "")
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: localhost\r\n", m, u.RequestURI())
	hr.Header.Write(&b)
	b.WriteString("\r\n")
	what := fmt.Sprintf("%s %s?%.60s", m, q.Path, q.Query)
	if _, err := c.Write(b.Bytes()); err != nil {
		w.fail("unanswered", "the request %s could not be sent: %v %s", what, err, w.panic)
		return false
	}
	var in io.Reader = br
	if q.Abort > 0 {
		buf := make([]byte, q.Abort)
		br.Read(buf)
		zsim.FaultHit("client went away")
		c.C.Reset()
		return false
	}
	resp, err := real.ReadResponse(in.(*bufio.Reader), hr)
	if err != nil {
		w.fail("unanswered", "the request %s was not answered: %v %s", what, err, w.panic)
		return false
	}
	var body []byte
	buf := make([]byte, 700)
	for {
		if q.Slow > 0 {
			s.Sleep(time.Duration(q.Slow))
		}
		n, err := resp.Body.Read(buf)
		body = append(body, buf[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			w.fail("truncated", "the answer to %s ended early: %v after %d bytes (status %d) %s", what, err, len(body), resp.StatusCode, w.panic)
			return false
		}
	}
	w.check(q, resp, body)
	f := fnv.New64a()
	fmt.Fprint(f, q.Path, q.Query, resp.StatusCode, len(body))
	w.h += f.Sum64()
	return !resp.Close
}

func (w *siteWorld) client(c *SiteClient) {
	w.s.Sleep(time.Duration(c.At))
	var nc *net.TCPConn
	var br *bufio.Reader
	for _, q := range c.Reqs {
		w.s.Sleep(time.Duration(q.Wait))
		if nc == nil {
			x, err := net.Dial("tcp", "localhost:8080")
			if err != nil {
				w.fail("unanswered", "no connection: %v", err)
				return
			}
			nc = x.(*net.TCPConn)
			br = bufio.NewReader(nc)
		}
		if !w.request(nc, br, q) {
			nc.Close()
			nc = nil
		}
	}
	if nc != nil {
		nc.Close()
	}
}

func runSite(s *zsim.Sim, prop string, p *SitePlan) {
	w := &siteWorld{s: s, prop: prop, plan: p, files: map[string]string{}, dirs: map[string]bool{"/": true}}
	for i, f := range p.Files {
		w.files["/"+f.Path] = p.content(i)
		for d := path.Dir("/" + f.Path); d != "/"; d = path.Dir(d) {
			w.dirs[d] = true
		}
	}
	ui.Tarball = p.archive()
	if p.Nil {
		ui.Tarball = nil
	}
	s.Net.PFrag, s.Net.PShort, s.Net.MaxDelay = p.Frag, p.Short, time.Duration(p.Delay)
	if p.Window > 0 {
		s.Net.Window = p.Window
	}
	http.HandlerPanic = func(v interface{}) { w.panic = fmt.Sprint("panic: ", v) }
	conf := "[main]\nduration = \"10m\"\n[[listeners.graphite]]\naddress = \":1111\"\n[database.files]\ndirectory = \"/data\"\nsize = 256\ncap = 10\nfiles = 2\n[database.files.tuning]\nbuffer = 10\nworkers = 1\nhandles = 10\n[dist.tdigest]\ncompression = 5.0\n[api]\naddress = \":8080\"\n"
	if p.Auth {
		conf += fmt.Sprintf("[api.security]\nusername = %q\npassword = %q\n", siteUser, sitePass)
	}
	s.FS.Mkdirs("/etc")
	s.FS.Mkdirs("/data")
	s.FS.WriteFile("/etc/site.toml", []byte(conf))
	w.p = s.NewProc("server")
	ext := s.NewProc("browsers")
	s.GoIn(w.p, "main", func() {
		os.Args = []string{"rothko", "run", "/etc/site.toml"}
		rothko.Main()
	})
	up := func() bool { return s.Net.Listener(":8080") != nil && s.SigHandled(w.p, int(syscall.SIGINT)) }
	for n := 0; !up() && !w.p.Dead; n++ {
		if n > 100000 {
			w.fail("not-serving", "the program does not listen\n%s", s.Blocked())
			return
		}
		s.Sleep(20 * time.Microsecond)
	}
	cut := p.Cut > 0 && !p.Nil && !whole(ui.Tarball)
	if w.p.Dead {
		if w.p.Crashed != "" {
			w.fail("panic", "the process died: %s\n%s", w.p.Crashed, w.p.Stack)
		} else if !cut || w.p.ExitCode == 0 {
			w.fail("exit-status", "the program ended with status %d when it was started", w.p.ExitCode)
		} else {
			zsim.Probe("an incomplete site was refused")
		}
		return
	}
	if cut {
		w.fail("incomplete", "the program serves %d thousandths of the site", p.Cut)
		return
	}
	w.left = len(p.Clients)
	for i, c := range p.Clients {
		c := c
		s.GoIn(ext, fmt.Sprint("client", i), func() {
			w.client(c)
			w.left--
			w.wq.WakeAll(s)
		})
	}
	s.GoIn(ext, "last", func() {
		for w.left > 0 {
			w.wq.Wait(s, "clients")
		}
		w.client(&SiteClient{Reqs: []*SiteReq{{Path: "/", Query: "metric=last"}, {Path: "/" + p.Files[0].Path, Query: "metric=again"}}})
		w.left--
		w.wq.WakeAll(s)
	})
	s.GoIn(s.World, "ender", func() {
		for w.left >= 0 {
			w.wq.Wait(s, "clients")
		}
		s.Signal(w.p, int(syscall.SIGINT))
	})
	if !s.WaitDeath(w.p, 24*time.Hour) {
		w.fail("hang", "the program did not end, or a request was not answered (%d clients left) %s\n%s", w.left, w.panic, s.Blocked())
		return
	}
	s.Kill(ext)
	if w.p.Crashed != "" {
		w.fail("panic", "the process died: %s\n%s", w.p.Crashed, w.p.Stack)
	} else if w.p.ExitCode != 0 || !w.p.Exited {
		w.fail("exit-status", "the program ended with status %d", w.p.ExitCode)
	}
	lib.StateHash = w.h
}
