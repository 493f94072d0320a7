package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"fmt"
	"net"
	neturl "net/url"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"

	readability "github.com/giulianopz/go-readability"
)

// C21: the command, run as a process against a server with faults.

const c21URL = "\x00URL"   // stands for the address of the page in an argument
const c21Addr = "\x00HOST" // the host and port

// c21Server answers every connection with the given bytes, then ends it:
// with a FIN, or with a reset. Nil bytes: the port is closed.
type c21Server struct {
	reply  [][]byte // written one after the other
	reset  bool
	silent bool              // closes before reading the request
	paths  map[string][]byte // answers by path, before the others
}

func (s *c21Server) start() (string, func() int, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	addr := l.Addr().String()
	if s.reply == nil && !s.silent {
		l.Close()
		return addr, func() int { return 0 }, func() {}
	}
	var hits atomic.Int32
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			hits.Add(1)
			go func(c *net.TCPConn) {
				defer c.Close()
				c.SetDeadline(time.Now().Add(20 * time.Second))
				if !s.silent {
					// read the head of the request
					var head []byte
					b := make([]byte, 2048)
					for !bytes.Contains(head, []byte("\r\n\r\n")) {
						n, err := c.Read(b)
						head = append(head, b[:n]...)
						if err == nil && head[0] == 0x16 {
							break // a TLS handshake gets the answer as it is
						}
						if err != nil {
							return
						}
					}
					reply := s.reply
					if f := strings.Fields(string(head)); len(f) > 1 && s.paths[f[1]] != nil {
						reply = [][]byte{s.paths[f[1]]}
					}
					for _, r := range reply {
						c.Write(bytes.ReplaceAll(r, []byte("ADDR"), []byte(addr)))
					}
				}
				if s.reset {
					c.SetLinger(0)
					return
				}
				c.CloseWrite()
				// let the client read everything before the socket goes away
				c.SetReadDeadline(time.Now().Add(10 * time.Second))
				for {
					if _, err := c.Read(make([]byte, 512)); err != nil {
						return
					}
				}
			}(c.(*net.TCPConn))
		}
	}()
	return addr, func() int { return int(hits.Load()) }, func() { l.Close() }
}

type c21Out struct {
	stdout, stderr string
	code           int
	hung           bool
}

func c21Exec(args []string) c21Out { return c21ExecTo(args, nil) }

// c21ExecTo runs the command with its output going to the given file.
func c21ExecTo(args []string, to *os.File) c21Out {
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("MC_CLI"), args...)
	cmd.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if to != nil {
		cmd.Stdout = to
	}
	err := cmd.Run()
	out := c21Out{stdout: o.String(), stderr: e.String()}
	if ctx.Err() != nil {
		out.hung = true
	}
	if err != nil {
		out.code = -1
		if cmd.ProcessState != nil {
			out.code = cmd.ProcessState.ExitCode()
		}
	}
	return out
}

func c21Head(proto string, hdr ...string) string {
	return proto + " 200 OK\r\nContent-Type: text/html; charset=utf-8\r\n" + strings.Join(hdr, "") + "\r\n"
}

const (
	c21Len = iota
	c21Chunked
	c21Close
	c21Gzip
)

// c21Reply is the answer of the server: head and body. tail is the number of
// bytes at the end without which the answer may pass for complete.
func c21Reply(mode int, body string) (reply []byte, tail int) {
	switch mode {
	case c21Len:
		return []byte(c21Head("HTTP/1.1", fmt.Sprintf("Content-Length: %d\r\n", len(body))) + body), 0
	case c21Chunked:
		var b strings.Builder
		b.WriteString(c21Head("HTTP/1.1", "Transfer-Encoding: chunked\r\n"))
		for rest := body; rest != ""; {
			n := min(300, len(rest))
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		b.WriteString("0\r\n\r\n")
		return []byte(b.String()), 4
	case c21Gzip:
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write([]byte(body))
		w.Close()
		return []byte(c21Head("HTTP/1.1", "Content-Encoding: gzip\r\n", fmt.Sprintf("Content-Length: %d\r\n", z.Len())) + z.String()), 0
	}
	return []byte(c21Head("HTTP/1.0") + body), len(body)
}

// c21Judge: the run of the command is either the article and success, or a
// message and failure.
func c21Judge(t *T, o c21Out, body, url string, html bool, mayWork, mayFail bool) {
	if o.hung {
		t.Fail("the command does not end")
		return
	}
	want, err := "", error(nil)
	var res *readability.Result
	if u, err := neturl.Parse(url); err == nil {
		url = u.String() // the same address
	}
	r, err := readability.New(body, url)
	if err == nil {
		res, err = r.Parse()
	}
	if err == nil {
		want = res.TextContent
		if html {
			want = res.HTMLContent
		}
	} else {
		mayWork, mayFail = false, true
	}
	t.Trace()
	t.Outcome(fmt.Sprint(o.code), o.stdout)
	if o.code == 0 {
		if !mayWork {
			t.Fail("the command reports success, it printed %q", short(o.stdout))
		} else if o.stdout != want {
			t.Fail("the command printed\n%q\nwant\n%q", short(o.stdout), short(want))
		}
		return
	}
	if !mayFail {
		t.Fail("the command failed with status %d: %q %q", o.code, short(o.stdout), short(o.stderr))
		return
	}
	if o.code < 0 || strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "goroutine ") {
		t.Fail("the command crashed: %q", short(o.stderr))
	}
	if strings.TrimSpace(o.stdout+o.stderr) == "" {
		t.Fail("the command failed with status %d and no message", o.code)
	}
	for _, w := range []string{"art0", "arta0", "artb0"} {
		if strings.Contains(o.stdout, w) {
			t.Fail("the command failed with status %d and printed an article: %q", o.code, short(o.stdout))
		}
	}
}

// c21Flags is a model of the command line: flags first, then the address.
func c21Flags(args []string) (url string, html bool, ok, help bool) {
	bools := func(v string) bool {
		switch v {
		case "1", "t", "T", "true", "TRUE", "True", "0", "f", "F", "false", "FALSE", "False":
			return true
		}
		return false
	}
	bad := false // the last format counts
	for len(args) > 0 {
		a := args[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		if a == "--" {
			args = args[1:]
			break
		}
		args = args[1:]
		name := strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-")
		name, val, has := strings.Cut(name, "=")
		switch name {
		case "o", "output":
			if !has {
				if len(args) == 0 {
					return "", false, false, false
				}
				val, args = args[0], args[1:]
			}
			html, bad = val == "html", val != "html" && val != "text"
		case "v", "verbose":
			if has && !bools(val) {
				return "", false, false, false
			}
		case "h", "help":
			return "", false, true, true
		default:
			return "", false, false, false
		}
	}
	if len(args) > 0 {
		url = args[0]
	}
	return url, html, !bad, false
}

var c21Pages = []string{
	"<html><head><title>A title</title></head><body><div><p>" + prose("arta", 300) + "</p><p>" + prose("artb", 300) + " <a href=\"x/y.html\">link</a></p></div></body></html>",
	"<html><head></head><body><div><p>100% %s %d %!v(x) " + prose("arta", 300) + "</p><p>a\\nb \\t &amp;lt;b&amp;gt; &lt;i&gt; " + prose("artb", 300) + "</p></div></body></html>",
	"<html><body><p>" + strings.Repeat("héllo wörld 漢字, ", 60) + "</p></body></html>",
	"<html><body><p>tiny art0</p></body></html>",
	"<html><body></body></html>", "<html><head></head></html>", "", "   ", "plain art0 text without any markup", "{\"json\": \"art0\"}", "<html><body><script>art0</script></body></html>", "<p>art0", "\x00\x01\xff\xfe art0", "<html><body><div hidden=\"\"><p>" + prose("art", 300) + "</p></div></body></html>",
	"<html><body><div><p>" + prose("arta", 60000) + "</p></div></body></html>",
	"<html><body><div>" + strings.Repeat("<p>"+prose("arta", 100)+"</p>", 300) + "</div></body></html>",
	"<html><body><pre>arta0\n\n  arta1\tx\n" + prose("arta", 400) + "</pre></body></html>",
	"<html lang=\"en\" dir=\"rtl\"><body><div>" + paras("arta", 3, 200) + "<iframe src=\"https://www.youtube.com/embed/1\"></iframe></div></body></html>",
}

func c21Fetch(t *T, s *c21Server, args []string, body string, mayWork, mayFail bool) {
	addr, _, stop := s.start()
	defer stop()
	url := "http://" + addr + "/dir/page.html"
	var a []string
	for _, x := range args {
		a = append(a, strings.ReplaceAll(strings.ReplaceAll(x, c21URL, url), c21Addr, addr))
	}
	t.Trans++
	o := c21Exec(a)
	u, html, ok, help := c21Flags(a)
	if help {
		if o.hung || strings.Contains(o.stdout, "arta0") {
			t.Fail("help is asked for: %q", short(o.stdout))
		}
		return
	}
	if !ok || u != url && !strings.Contains(strings.Join(args, " "), c21Addr) {
		mayWork, mayFail = false, true
	}
	c21Judge(t, o, strings.ReplaceAll(body, "ADDR", addr), u, html, mayWork, mayFail)
}

func init() {
	register(&Prop{ID: "C21", Level: "fault_enumeration",
		Rule: "every argument vector of up to 3 (quick) or 4 (thorough) words, every cut point of the server's answer x way to deliver it x way to end it, every page x delivery x format, answers of 4 kB to 1 MB (16 MB) at every power of two and its neighbours, bad addresses of every length up to 300 (1100), 20 forms of the address, and the faults before the answer; non-trivial: a distinct run of the command",
		Families: func(tier string) []Family {
			if os.Getenv("MC_CLI") == "" {
				fmt.Fprintln(os.Stderr, "mc: the command was not built")
				os.Exit(3)
			}
			var fs []Family
			words := []string{c21URL, "-o", "html", "text", "-o=html", "-output=text", "--output", "-v", "-v=maybe", "-x", "", "--", "-", "-o=weird", "-h", "nosuch://host/x", "bad url", "http://", "-o=", "-verbose=false"}
			if tier == "quick" {
				words = words[:16]
			}
			L := 3
			if tier == "thorough" {
				L = 4
			}
			fs = append(fs, Family{Name: "arguments", N: seqCount(len(words), 0, L), Run: func(t *T, i uint64) {
				var args []string
				for _, k := range seqAt(i, len(words), 0, L) {
					args = append(args, words[k])
				}
				t.Begin("arguments %q", args)
				t.State(fmt.Sprint("args", args))
				reply, _ := c21Reply(c21Len, c21Pages[0])
				c21Fetch(t, &c21Server{reply: [][]byte{reply}}, args, c21Pages[0], true, false)
			}})
			// cut points
			body := "<html><head><title>A title</title></head><body><div><p>" + prose("arta", 300) + "</p><p>" + prose("artb", 300) + "</p></div></body></html>"
			maxLen := 0
			for m := 0; m < 4; m++ {
				r, _ := c21Reply(m, body)
				maxLen = max(maxLen, len(r))
			}
			fs = append(fs, Family{Name: "cuts", N: size(4, 2, 2, maxLen+1), Run: func(t *T, i uint64) {
				d := &dec{i}
				mode, reset, html, cut := d.n(4), d.b(), d.b(), d.n(maxLen+1)
				full, tail := c21Reply(mode, body)
				if cut > len(full) || html && tier == "quick" && (mode != c21Len || reset) {
					return
				}
				args := []string{c21URL}
				if html {
					args = []string{"-o", "html", c21URL}
				}
				t.Begin("delivery %d, ended after byte %d of %d, reset %v, %v", mode, cut, len(full), reset, args)
				t.State(fmt.Sprint("cut", mode, reset, html, cut))
				whole := cut == len(full)
				if mode == c21Close && cut >= len(full)-tail && !whole {
					return // an answer without a length cannot be told from a shorter one
				}
				c21Fetch(t, &c21Server{reply: [][]byte{full[:cut]}, reset: reset, silent: false}, args, body, whole || cut >= len(full)-tail, !whole || reset || tail > 0 && cut < len(full))
			}})
			// pieces: however the answer is split into writes, it is the same
			fs = append(fs, Family{Name: "pieces", N: size(2, maxLen), Quick: size(2, maxLen), Run: func(t *T, i uint64) {
				d := &dec{i}
				mode, cut := d.n(2), d.n(maxLen)
				full, _ := c21Reply(mode, body)
				if cut >= len(full) {
					return
				}
				t.Begin("delivery %d, split at %d", mode, cut)
				t.State(fmt.Sprint("piece", mode, cut))
				c21Fetch(t, &c21Server{reply: [][]byte{full[:cut], full[cut:]}}, []string{c21URL}, body, true, false)
			}})
			// pages
			argSets := [][]string{{c21URL}, {"-o", "text", c21URL}, {"-o", "html", c21URL}, {"-output=html", c21URL}, {"-v", c21URL}, {"-v", "-o=html", c21URL}, {"-verbose", "-output", "text", c21URL}, {"-o", "html", "-output", "text", c21URL}, {"-output", "text", "-o", "html", c21URL}}
			fs = append(fs, Family{Name: "pages", N: size(len(c21Pages), len(argSets), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				pg, args, mode := pick(d, c21Pages), pick(d, argSets), d.n(4)
				t.Begin("delivery %d, %q: %s", mode, args, short(pg))
				t.State("page", pg, fmt.Sprint(args, mode))
				full, _ := c21Reply(mode, pg)
				c21Fetch(t, &c21Server{reply: [][]byte{full}}, args, pg, true, false)
			}})
			// sizes of the answer: the article stands behind, before and among the bulk
			bulk := []int{1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 19, 1 << 20}
			if tier == "thorough" {
				bulk = append(bulk, 1<<21, 1<<22, 1<<23, 1<<24)
			}
			fs = append(fs, Family{Name: "sizes", N: size(len(bulk), 3, 3, 4, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, off, where, mode, html := pick(d, bulk), d.n(3)-1, d.n(3), d.n(4), d.b()
				a, b := "<p>"+prose("arta", 300)+"</p>", "<p>"+prose("artb", 300)+"</p>"
				parts := []string{"<html><head><title>A title</title>", "</head><body><div>" + a, b + "</div></body></html>"}
				fill := n + off - len(strings.Join(parts[:where+1], "")) - 9
				bulky := "<!-- " + strings.Repeat("x", fill) + " -->"
				pg := ""
				for k, p := range parts {
					if k == where && where < 2 {
						pg += p + bulky
					} else if k == where {
						pg += strings.TrimSuffix(p, "</div></body></html>") + bulky + "</div></body></html>"
					} else {
						pg += p
					}
				}
				args := []string{c21URL}
				if html {
					args = []string{"-o=html", c21URL}
				}
				t.Begin("delivery %d, %d bytes before the rest of the page, place %d, %q", mode, n+off, where, args)
				t.State(fmt.Sprint("size", n, off, where, mode, html))
				full, _ := c21Reply(mode, pg)
				c21Fetch(t, &c21Server{reply: [][]byte{full}}, args, pg, true, false)
			}})
			// forms of the address: the links of the article are relative to it
			forms := []string{"http://H", "http://H/", "http://H/a", "http://H/a/", "http://H/a/b/c.html", "http://H/a?q=1&r=/x/y", "http://H/a/b?q=http://o.example/z", "http://H/a/#frag", "http://H/a/b#frag?x", "http://u:p@H/a/b", "HTTP://H/a/b", "http://H//a//b", "http://H/a/../b/c", "http://H/a%20b/c", "http://H/%E6%BC%A2/x", "http://H/漢/x", "http://H?q", "http://H/a;p=1/b", "http://H/a:b/c", "http://H/100%25/x"}
			links := []string{"x/y.html", "/x", "?z=1", "#sec", "../up", "//o.example/p", "http://o.example/abs", "."}
			fs = append(fs, Family{Name: "addresses", N: size(len(forms), len(links), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				form, link, html := pick(d, forms), pick(d, links), d.b()
				pg := "<html><head><title>A title</title></head><body><div><p>" + prose("arta", 300) + "</p><p id=\"sec\">" + prose("artb", 300) + " <a href=\"" + link + "\">link</a> <img src=\"i.png\"/></p></div></body></html>"
				args := []string{strings.Replace(form, "H/", c21Addr+"/", 1)}
				if form == "http://H" || form == "http://H?q" {
					args = []string{strings.Replace(form, "//H", "//"+c21Addr, 1)}
				}
				if html {
					args = append([]string{"-o", "html"}, args...)
				}
				t.Begin("%q, link %s", args, link)
				t.State("form", form, link, fmt.Sprint(html))
				full, _ := c21Reply(c21Len, pg)
				c21Fetch(t, &c21Server{reply: [][]byte{full}}, args, pg, true, false)
			}})
			// redirects: the links of the article are relative to where it was found
			targets := []string{"/moved/to/page.html", "http://ADDR/m/", "../up/x", "?q=1", "//ADDR/n/o/p", "/frag/x#sec", "sub/"}
			codes := []string{"301 Moved Permanently", "302 Found", "303 See Other", "307 Temporary Redirect", "308 Permanent Redirect"}
			fs = append(fs, Family{Name: "redirects", N: size(len(codes), 2, len(links)) * seqCount(len(targets), 1, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				code, html, link := pick(d, codes), d.b(), pick(d, links)
				pg := "<html><head><title>A title</title></head><body><div><p>" + prose("arta", 300) + "</p><p id=\"sec\">" + prose("artb", 300) + " <a href=\"" + link + "\">link</a> <img src=\"i.png\"/></p></div></body></html>"
				full, _ := c21Reply(c21Len, pg)
				s := &c21Server{reply: [][]byte{full}, paths: map[string][]byte{}}
				at, _ := neturl.Parse("http://ADDR/dir/page.html")
				var seen []string
				for _, k := range seqAt(d.i, len(targets), 1, 2) {
					if s.paths[at.RequestURI()] != nil {
						return // a loop
					}
					s.paths[at.RequestURI()] = []byte("HTTP/1.1 " + code + "\r\nLocation: " + targets[k] + "\r\nContent-Length: 0\r\n\r\n")
					seen = append(seen, targets[k])
					at, _ = at.Parse(targets[k])
				}
				if s.paths[at.RequestURI()] != nil {
					return
				}
				addr, _, stop := s.start()
				defer stop()
				args := []string{"http://" + addr + "/dir/page.html"}
				if html {
					args = append([]string{"-o", "html"}, args...)
				}
				t.Begin("%s to %q, link %s, html %v", code, seen, link, html)
				t.State("redirect", code, fmt.Sprint(seen), link, fmt.Sprint(html))
				t.Trans++
				c21Judge(t, c21Exec(args), pg, strings.Replace(at.String(), "ADDR", addr, 1), html, true, false)
			}})
			// an article that cannot be written is a failure
			fs = append(fs, Family{Name: "broken-output", N: size(len(c21Pages), 2, 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				pg, html, mode := pick(d, c21Pages), d.b(), d.n(4)
				full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
				if err != nil {
					return
				}
				defer full.Close()
				reply, _ := c21Reply(mode, pg)
				addr, _, stop := (&c21Server{reply: [][]byte{reply}}).start()
				defer stop()
				args := []string{"http://" + addr + "/dir/page.html"}
				if html {
					args = append([]string{"-o", "html"}, args...)
				}
				t.Begin("output to a full device, page %s, html %v, delivery %d", short(pg), html, mode)
				t.State("full", pg, fmt.Sprint(html, mode))
				t.Trans++
				o := c21ExecTo(args, full)
				if o.hung || o.code == 0 {
					t.Fail("the output is a full device: the status is %d (ended: %v)", o.code, !o.hung)
				}
			}})
			// bad addresses of every length, and unreachable ones: the status tells of the failure
			addrs := []string{"nosuch://host/X", "http://127.0.0.1:1/X", "bad url X", "http://[::1X", "http://127.0.0.1:1/?q=X", "%zzX"}
			lens := 300
			if tier == "thorough" {
				lens = 1100
			}
			fs = append(fs, Family{Name: "bad-addresses", N: size(len(addrs), lens), Run: func(t *T, i uint64) {
				d := &dec{i}
				u := pick(d, addrs)
				u = strings.Replace(u, "X", strings.Repeat("x", d.n(lens)), 1)
				t.Begin("address %q", u)
				t.State("addr", u)
				t.Trans++
				c21Judge(t, c21Exec([]string{u}), "", u, false, false, true)
			}})
			// the building blocks of C02, through the command
			nb := len(c02Blocks)
			fs = append(fs, Family{Name: "blocks", N: seqCount(nb, 0, 2) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				html := d.b()
				src, _, _ := c02Doc(seqAt(d.i, nb, 0, 2), 0)
				args := []string{c21URL}
				if html {
					args = []string{"-o=html", c21URL}
				}
				t.Begin("%q: %s", args, src)
				t.State("block", src, fmt.Sprint(html))
				full, _ := c21Reply(c21Len, src)
				c21Fetch(t, &c21Server{reply: [][]byte{full}}, args, src, true, false)
			}})
			// faults before and around the answer
			type fault struct {
				name    string
				s       *c21Server
				body    string
				mayWork bool
				mayFail bool
			}
			pg := c21Pages[0]
			ok, _ := c21Reply(c21Len, pg)
			raw := func(s string) *c21Server { return &c21Server{reply: [][]byte{[]byte(s)}} }
			faults := []fault{
				{"refused", &c21Server{}, pg, false, true},
				{"closed at once", &c21Server{silent: true}, pg, false, true},
				{"reset at once", &c21Server{silent: true, reset: true}, pg, false, true},
				{"no bytes", &c21Server{reply: [][]byte{{}}}, pg, false, true},
				{"garbage", raw("garbage here\r\n\r\n" + pg), pg, false, true},
				{"bad status", raw("HTTP/1.1 abc OK\r\n\r\n" + pg), pg, false, true},
				{"bad header", raw("HTTP/1.1 200 OK\r\nno colon here\r\n\r\n" + pg), pg, false, true},
				{"bad length", raw("HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n" + pg), pg, false, true},
				{"two lengths", raw("HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\n" + pg), pg, false, true},
				{"length too large", raw(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(pg)+1, pg)), pg, false, true},
				{"bad chunk", raw("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + pg), pg, false, true},
				{"chunk too short", raw("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n" + pg), pg, false, true},
				{"unknown coding", raw("HTTP/1.1 200 OK\r\nTransfer-Encoding: nosuch\r\n\r\n" + pg), pg, false, true},
				{"not gzip", raw(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: %d\r\n\r\n%s", len(pg), pg)), pg, false, true},
				{"redirect loop", raw("HTTP/1.1 302 Found\r\nLocation: /again\r\nContent-Length: 0\r\n\r\n"), pg, false, true},
				{"redirect without location", raw("HTTP/1.1 302 Found\r\nContent-Length: 0\r\n\r\n"), "", false, true},
				{"redirect to a bad address", raw("HTTP/1.1 302 Found\r\nLocation: http://[::1\r\nContent-Length: 0\r\n\r\n"), "", false, true},
				{"redirect to a closed port", raw("HTTP/1.1 302 Found\r\nLocation: http://127.0.0.1:1/\r\nContent-Length: 0\r\n\r\n"), "", false, true},
				{"empty", raw("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"), "", false, true},
				{"no content", raw("HTTP/1.1 204 No Content\r\n\r\n"), "", false, true},
				{"fine", &c21Server{reply: [][]byte{ok}}, pg, true, false},
				{"fine, then a reset", &c21Server{reply: [][]byte{ok}, reset: true}, pg, true, true},
				{"fine, unsolicited bytes", &c21Server{reply: [][]byte{ok, []byte("HTTP/1.1 200 OK\r\n\r\nmore art0")}}, pg, true, false},
				{"interim answer", &c21Server{reply: [][]byte{[]byte("HTTP/1.1 103 Early Hints\r\n\r\n"), ok}}, pg, true, false},
				{"https on an http port", nil, pg, false, true},
			}
			// what the status of the answer is: the page is read, or that is a failure
			for _, st := range []string{"201 Created", "203 Other", "206 Part", "226 Used", "299 Own", "300 Choices", "400 Bad", "401 No", "403 No", "404 Not Found", "410 Gone", "418 Tea", "429 Many", "451 Law", "500 Error", "502 Gateway", "503 Busy", "504 Late", "599 Own"} {
				faults = append(faults, fault{st, raw(fmt.Sprintf("HTTP/1.1 %s\r\nContent-Length: %d\r\n\r\n%s", st, len(pg), pg)), pg, true, true})
			}
			fs = append(fs, Family{Name: "faults", N: size(len(faults), len(argSets)), Run: func(t *T, i uint64) {
				d := &dec{i}
				f, args := pick(d, faults), pick(d, argSets)
				t.Begin("%s %q", f.name, args)
				t.State("fault", f.name, fmt.Sprint(args))
				if f.s == nil {
					addr, _, stop := (&c21Server{reply: [][]byte{ok}}).start()
					defer stop()
					var a []string
					for _, x := range args {
						a = append(a, strings.ReplaceAll(x, c21URL, "https://"+addr+"/"))
					}
					c21Judge(t, c21Exec(a), pg, "https://"+addr+"/", false, false, true)
					return
				}
				c21Fetch(t, f.s, args, f.body, f.mayWork, f.mayFail)
			}})
			return fs
		},
	})
}
