package main

import (
	"fmt"
	"net/url"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// C09: addresses of the content are absolute.

var c09Docs = []string{
	docURI, "http://host.example", "http://host.example/", "https://host.example:8443/a/b/?x=1", "http://host.example/a%20b/c.html", "file:///d/e/p.html", "http://Host.Example/dir/page.html?q=a/b", "http://u:p@host.example/dir/sub/", "ftp://host.example/pub/x",
}

var c09Bases = []string{
	"", "<base href=\"\"/>", "<base href=\"/\"/>", "<base href=\"/other/\"/>", "<base href=\"sub/\"/>", "<base href=\"sub/x.html\"/>", "<base href=\"../up/\"/>", "<base href=\"http://base.example/x/y\"/>", "<base href=\"https://base.example\"/>", "<base href=\"//cdn.example/z/\"/>", "<base href=\"?v=2\"/>", "<base target=\"_blank\"/>", "<base href=\"/one/\"/><base href=\"/two/\"/>", "<base href=\"http://[bad\"/>", "<base href=\"SELF\"/>", "<base href=\"b%20c/\"/>", "<base target=\"_blank\"/><base href=\"/three/\"/>", "<base id=\"b\"/><base target=\"_top\" href=\"http://base.example/four/\"/>", "<base href=\"\"/><base href=\"/five/\"/>", "<base href=\" /six/ \"/>", "<base href=\"\n http://base.example/seven/\"/>", "<base href=\"/eight/\" target=\"_self\"/>",
}

var c09Refs = func() []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	paths := []string{"", "a", "/a", "a/b/c", "../a", "./a", ".", "..", "../../../../a", "a/../b", "/a/./b/", "a/", "a%20b", "/%C3%A9", "é", "a;b,c", "a b", "a=b", "x/C|/y", "~u/(v)", "a//b"}
	for _, au := range []string{"", "//o.example", "//O.Example:8080", "http://h.example", "https://u:p@h.example:1", "HTTP://h.example"} {
		for _, p := range paths {
			if au != "" && p != "" && p[0] != '/' {
				p = "/" + p
			}
			for _, q := range []string{"", "?q=1&r=a/b", "?", "?s=%20"} {
				for _, f := range []string{"", "#f", "#", "#g?h", "#%20", "#a%2541", "#b%23c"} {
					add(au + p + q + f)
				}
			}
		}
	}
	for _, s := range []string{"mailto:a@b.example", "mailto:a@b.example?subject=x", "tel:+1234", "data:text/plain,abc", "data:image/gif;base64,R0lGODlhAQABAAAAACw=", "urn:isbn:123", "about:blank", "ftp://f.example/x/y", "file:///x/y", "http:", "http://", "http://[bad", "http://h.example:port/", "%zz", "a%zz", "://x", " a ", "\ta\n", " ", "?", "#", "?#", "magnet:?xt=1", "x-app://host/path", "sms:1?body=2", "a:b", "./a:b", "http://h.example/a,b", "http://h.example/?u=http://z.example/", "blob:http://h.example/1", "http://host.example/dir/page.html", "http://host.example/dir/page.html#f", "page.html", "//host.example/x", "http://é.example/x", "a?b?c", "a#b#c"} {
		add(s)
	}
	return out
}()

type c09Attr struct{ tag, attr, markup string }

// R: the reference
var c09Attrs = []c09Attr{
	{"a", "href", `<p>lead <a data-k="1" href="R">link</a> tail</p>`},
	{"img", "src", `<p>lead <img data-k="1" src="R"/> tail</p>`},
	{"video", "src", `<p>lead</p><video data-k="1" src="R"></video>`},
	{"video", "poster", `<p>lead</p><video data-k="1" poster="R"></video>`},
	{"audio", "src", `<p>lead <audio data-k="1" src="R"></audio> tail</p>`},
	{"source", "src", `<video><source data-k="1" src="R"/></video>`},
	{"picture", "src", `<p>lead</p><picture data-k="1" src="R"><img src="/i.png"/></picture>`},
	{"figure", "src", `<figure data-k="1" src="R"><img src="/i.png"/></figure>`},
	{"img", "poster", `<p>lead <img data-k="1" src="/i.png" poster="R"/> tail</p>`},
	{"a", "href", `<p><a data-k="1" href="R"><img src="/i.png"/></a> tail</p>`},
	{"a", "href", `<ul><li>one <a data-k="1" href="R"><b>x</b> y</a></li><li>two words</li></ul>`},
}

func c09Base(doc, base string) (*url.URL, string, bool) {
	d, err := url.Parse(doc)
	if err != nil {
		return nil, doc, false
	}
	_, href, ok := strings.Cut(base, `href="`) // of the first base element with one
	href, _, _ = strings.Cut(href, `"`)
	href = strings.TrimSpace(href)
	if !ok || href == "" {
		return d, doc, true
	}
	if href == "SELF" {
		href = doc
	}
	h, err := url.Parse(href)
	if err != nil {
		return d, doc, true
	}
	r := d.ResolveReference(h)
	return r, r.String(), r.String() == doc
}

// c09Expect tells what the address must be: an address to compare by meaning,
// or the very same text.
func c09Expect(doc, base, ref string) (want *url.URL, same bool) {
	b, _, isDoc := c09Base(doc, base)
	ref = strings.TrimSpace(ref)
	if ref == "" || b == nil {
		return nil, true
	}
	if isDoc && ref[0] == '#' {
		return nil, true
	}
	r, err := url.Parse(ref)
	if err != nil {
		return nil, true
	}
	return b.ResolveReference(r), false
}

// canon is the canonical spelling of a component: unreserved characters as they
// are, reserved ones as they were written, all others escaped.
func canon(s string) string {
	var b strings.Builder
	unres := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~", c) >= 0
	}
	hex := func(c byte) int { return strings.IndexByte("0123456789ABCDEF", strings.ToUpper(string(c))[0]) }
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '%' && i+2 < len(s) && hex(s[i+1]) >= 0 && hex(s[i+2]) >= 0 {
			c = byte(hex(s[i+1])<<4 | hex(s[i+2]))
			i += 2
			if unres(c) {
				b.WriteByte(c)
			} else {
				fmt.Fprintf(&b, "%%%02X", c)
			}
			continue
		}
		if unres(c) || strings.IndexByte(":/?#[]@!$&'()*+,;=%", c) >= 0 {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func c09Same(got string, want *url.URL) error {
	g, err := url.Parse(got)
	if err != nil {
		return fmt.Errorf("%q cannot be parsed: %v", got, err)
	}
	if g.Scheme == "" {
		return fmt.Errorf("%q is not absolute", got)
	}
	g = g.ResolveReference(&url.URL{})
	g2, _ := url.Parse(got)
	if g2.IsAbs() && g2.Opaque == "" {
		// removes dot segments
		g = (&url.URL{Scheme: "http", Host: "none.example", Path: "/"}).ResolveReference(g2)
	} else {
		g = g2
	}
	norm := func(u *url.URL) string {
		p := strings.ReplaceAll(canon(u.EscapedPath()), "C%7C", "C:")
		if p == "" && u.Host != "" {
			p = "/"
		}
		us := ""
		if u.User != nil {
			us = u.User.String()
		}
		q := canon(u.RawQuery)
		return fmt.Sprintf("%s|%s|%s|%s|%s|%s|%s", strings.ToLower(u.Scheme), canon(u.Opaque), us, strings.ToLower(u.Host), p, q, canon(u.EscapedFragment()))
	}
	if norm(g) != norm(want) {
		return fmt.Errorf("%q does not mean %q (%s vs %s)", got, want, norm(g), norm(want))
	}
	return nil
}

func c09Check(t *T, what, ref, got string, found bool, doc, base string) bool {
	want, same := c09Expect(doc, base, ref)
	t.Trace()
	if same {
		if strings.TrimSpace(got) != strings.TrimSpace(ref) && found {
			t.Fail("%s: %q should be left alone, got %q", what, ref, got)
			return false
		}
		return true
	}
	if !found {
		t.Fail("%s: the attribute %q is gone", what, ref)
		return false
	}
	if err := c09Same(got, want); err != nil {
		t.Fail("%s: %q against document %q, base %q: %v", what, ref, doc, base, err)
		return false
	}
	return true
}

func c09Page(base, body, doc string) string {
	return page("<title>t</title>"+strings.ReplaceAll(base, "SELF", doc), "<div><p>"+prose("aa", 300)+"</p>"+body+"<p>"+prose("bb", 300)+"</p></div>")
}

func c09Esc(s string) string {
	return strings.NewReplacer("&", "&amp;", `"`, "&quot;").Replace(s)
}

var plain = []string{"x", "/x", "x/y/z", "../x", "./x", "..", ".", "../../x", "../../../../x", "x/../y", "/x/./y/", "?q=1", "?q=a/b", "//o.example/z", "x.html?q#f", "x;y", "/x//y", "", "?", "x/..", "x/.", "//o.example", "./", "../"}

func init() {
	register(&Prop{ID: "C09", Level: "exploration",
		Rule: "every reference of the grammar x base element x document URI x attribute; the oracle is net/url's RFC 3986 resolution, compared by components; non-trivial: the reference is resolved (not left alone)",
		Families: func(tier string) []Family {
			var fs []Family
			nr, nb, nd, na := len(c09Refs), len(c09Bases), len(c09Docs), len(c09Attrs)
			one := func(t *T, doc, base string, at c09Attr, ref string) {
				src := c09Page(base, strings.Replace(at.markup, "R", c09Esc(ref), 1), doc)
				t.Begin("uri=%s %s", doc, src)
				res := t.MustParse(src, doc)
				if res == nil {
					return
				}
				n := byAttr(parseOut(res.HTMLContent), "data-k", "1")
				if n == nil {
					t.Fail("the element is not in the content: %s", short(res.HTMLContent))
					return
				}
				got, ok := attrOf(n, at.attr)
				if c09Check(t, at.tag+" "+at.attr, ref, got, ok, doc, base) {
					if _, same := c09Expect(doc, base, ref); !same {
						t.State(doc, base, at.tag, at.attr, ref)
					}
				}
				t.Outcome(got)
			}
			fs = append(fs, Family{Name: "references", N: size(nr, nb, nd), Run: func(t *T, i uint64) {
				d := &dec{i}
				doc, base, ref := pick(d, c09Docs), pick(d, c09Bases), pick(d, c09Refs)
				one(t, doc, base, c09Attrs[0], ref)
			}})
			nra := nr
			if tier == "quick" {
				nra = nr
			}
			fs = append(fs, Family{Name: "attributes", N: size(nra, 4, 2, na-1), Run: func(t *T, i uint64) {
				d := &dec{i}
				at := pick(d, c09Attrs[1:])
				doc := []string{docURI, "https://host.example:8443/a/b/?x=1"}[d.n(2)]
				base := []string{"", "<base href=\"../up/\"/>", "<base href=\"//cdn.example/z/\"/>", "<base href=\"/one/\"/><base href=\"/two/\"/>"}[d.n(4)]
				ref := c09Refs[d.n(nra)]
				if at.tag == "img" && at.attr == "src" && strings.HasPrefix(ref, "data:") {
					return // tiny placeholders are removed
				}
				one(t, doc, base, at, ref)
			}})
			// srcset: every sequence of up to 3 entries
			ents := []string{"a.png", "/b/c.jpg 2x", "../d.webp 1.5x", "http://h.example/e.png 100w", "//o.example/f.png?x=1 3x", "g,h.png 4x", "i%20j.png 5x", "k.png?q=1,2 640w"}
			seps := []string{", ", ",\n\t", " , "}
			fs = append(fs, Family{Name: "srcset", N: seqCount(len(ents), 1, 3) * uint64(len(seps)*4*nd), Run: func(t *T, i uint64) {
				d := &dec{i}
				sep, doc := pick(d, seps), pick(d, c09Docs)
				host := []string{`<p>lead <img data-k="1" src="/i.png" srcset="R"/> tail</p>`, `<p>lead</p><picture><source data-k="1" srcset="R"/><img src="/i.png"/></picture>`, `<figure><img data-k="1" srcset="R"/><figcaption>cap</figcaption></figure>`, `<p>lead</p><video><source data-k="1" srcset="R"/></video>`}[d.n(4)]
				var list []string
				for _, k := range seqAt(d.i, len(ents), 1, 3) {
					list = append(list, ents[k])
				}
				src := c09Page("", strings.Replace(host, "R", c09Esc(strings.Join(list, sep)), 1), doc)
				t.Begin("uri=%s %s", doc, src)
				res := t.MustParse(src, doc)
				if res == nil {
					return
				}
				n := byAttr(parseOut(res.HTMLContent), "data-k", "1")
				if n == nil {
					t.Fail("the element is not in the content: %s", short(res.HTMLContent))
					return
				}
				set, _ := attrOf(n, "srcset")
				c09Srcset(t, list, set, doc, "")
				t.State(src, doc)
				t.Outcome(set)
			}})
			// several addresses in one page, fragments of the retry passes, options
			fs = append(fs, Family{Name: "many", N: size(6, 6, 6, 6, 4, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				refs := []string{"a", "/b", "#f", "//o.example/x", "?q", "mailto:x@y.example"}
				r := []string{pick(d, refs), pick(d, refs), pick(d, refs), pick(d, refs)}
				base := []string{"", "<base href=\"sub/\"/>", "<base href=\"http://base.example/x/\"/>", "<base href=\"SELF\"/>"}[d.n(4)]
				var opts []readability.Option
				src := ""
				body := fmt.Sprintf(`<p>lead <a data-k="0" href="%s">x</a> and <a data-k="1" href="%s">y</a></p><blockquote><p>quote <a data-k="2" href="%s">z</a></p></blockquote><p><a data-k="3" href="%s"><img src="/i.png"/></a></p>`, r[0], r[1], r[2], r[3])
				switch d.n(3) {
				case 0:
					src = c09Page(base, body, docURI)
				case 1: // found by the last pass only
					src = page("<title>t</title>"+strings.ReplaceAll(base, "SELF", docURI), "<div class=\"comment\"><p>"+prose("aa", 300)+"</p>"+body+"</div>")
				case 2:
					src = c09Page(base, body, docURI)
					opts = append(opts, readability.KeepClasses(true), readability.CharThreshold(5000))
				}
				t.Begin("%s", src)
				res := t.MustParse(src, docURI, opts...)
				if res == nil {
					return
				}
				root := parseOut(res.HTMLContent)
				for k, ref := range r {
					n := byAttr(root, "data-k", fmt.Sprint(k))
					if n == nil {
						t.Fail("link %d is not in the content: %s", k, short(res.HTMLContent))
						return
					}
					got, ok := attrOf(n, "href")
					c09Check(t, "a href", ref, got, ok, docURI, base)
				}
				for _, img := range elems(root, "img") {
					got, ok := attrOf(img, "src")
					c09Check(t, "img src", "/i.png", got, ok, docURI, base)
				}
				t.State(src)
			}})
			_ = html.ElementNode
			// two addresses of one page, alike but for a letter, a case, an escape
			alike := []string{"a", "A", "a/", "/a", "./a", "a?", "a#", "a?q", "a?Q", "a?q=1&&r", "a#F", "a#f", "b/../a", "http://h.example/P", "http://h.example/p", "http://H.example/P", "HTTP://h.example/P", "https://h.example/P", "//h.example/P", "http://h.example", "http://h.example/", "%61", "a%2Fb", "a/b", "a%26b", "a&b", "a?x=%26", "a?x=&", "a?x=%2B", "a?x=+", "a%3Fq", "a%23f", "#f", "#F", "a%25b", "mailto:a@b.example", "mailto:A@b.example", "é", "É", "e\u0301"}
			ho := []string{`<a data-k="%d" href="%s">x</a>`, `<img data-k="%d" src="%s"/>`, `<audio data-k="%d" src="%s"></audio>`}
			fs = append(fs, Family{Name: "pairs", N: size(len(alike), len(alike), len(ho), len(ho), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				r1, r2, h1, h2 := pick(d, alike), pick(d, alike), pick(d, ho), pick(d, ho)
				base := []string{"", "<base href=\"sub/\"/>", "<base href=\"http://base.example/x/\"/>"}[d.n(3)]
				src := c09Page(base, "<p>lead "+fmt.Sprintf(h1, 0, c09Esc(r1))+" and "+fmt.Sprintf(h2, 1, c09Esc(r2))+" tail</p>", docURI)
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				root := parseOut(res.HTMLContent)
				for k, ref := range []string{r1, r2} {
					n := byAttr(root, "data-k", fmt.Sprint(k))
					if n == nil {
						t.Fail("address %d is not in the content: %s", k, short(res.HTMLContent))
						return
					}
					at := "src"
					if n.Data == "a" {
						at = "href"
					}
					got, ok := attrOf(n, at)
					c09Check(t, n.Data+" "+at, ref, got, ok, docURI, base)
				}
				t.State(src)
			}})
			// other spellings of the document and of the base
			docs := []string{"http://host.example/a/.", "http://host.example/a/b/..", "http://host.example/a/b;p=1/c;q", "http://host.example//d//e", "http://[::1]:80/x/y", "http://host.example/a?x=/y/z", "http://host.example/%E6%BC%A2/x.html", "http://host.example/漢/x.html", "http://host.example/a/b#frag", "HTTP://HOST.example/x/y", "http://host.example/a%2Fb/c", "http://host.example/a/b?", "http://host.example/a/b#", "http://host.example:80/x/", "http://host.example/x/../y/z", "http://host.example/a b/c", "http://host.example/a%25/c", "custom://host/x/y"}
			bases := []string{"", "<base href=\"a/./b/\"/>", "<base href=\"/x/..\"/>", "<base href=\".\"/>", "<base href=\"..\"/>", "<base href=\"x/.\"/>", "<base href=\"/p?q=/r/s\"/>", "<base href=\"/p#f\"/>", "<base href=\"#f\"/>", "<base href=\"/%2F/x\"/>", "<base href=\"HTTP://B.example/X/y\"/>", "<base href=\"/漢/\"/>", "<base href=\"http://u:p@b.example:1/x/\"/>"}
			fs = append(fs, Family{Name: "documents", N: size(len(docs), len(bases), len(alike)+len(plain), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				doc, base, k, at := pick(d, docs), pick(d, bases), d.n(len(alike)+len(plain)), c09Attrs[d.n(2)]
				ref := ""
				if k < len(alike) {
					ref = alike[k]
				} else {
					ref = plain[k-len(alike)]
				}
				one(t, doc, base, at, ref)
			}})
			// wherever the base element stands
			at2 := []string{"<html><head></head><body>BX</body></html>", "<html><body>BX</body></html>", "<html><head><title>t</title></head><body>XB</body></html>", "<html><head></head>B<body>X</body></html>", "<html><head></head><body><div><p>one B two</p></div>X</body></html>", "<html><head><title>t</title></head><body>X</body>B</html>", "<html><body><main>X</main><footer>B</footer></body></html>", "<html><head><meta name=\"a\" content=\"b\"/><link rel=\"x\" href=\"/l\"/>B</head><body>X</body></html>"}
			fs = append(fs, Family{Name: "base-places", N: size(len(at2), len(c09Bases), len(plain), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				sh, base, ref, at := pick(d, at2), pick(d, c09Bases), pick(d, plain), c09Attrs[d.n(2)]
				src := strings.Replace(sh, "X", "<div><p>"+prose("aa", 300)+"</p>"+strings.Replace(at.markup, "R", c09Esc(ref), 1)+"<p>"+prose("bb", 300)+"</p></div>", 1)
				src = strings.Replace(src, "B", strings.ReplaceAll(base, "SELF", docURI), 1)
				t.Begin("uri=%s %s", docURI, src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				n := byAttr(parseOut(res.HTMLContent), "data-k", "1")
				if n == nil {
					t.Fail("the element is not in the content: %s", short(res.HTMLContent))
					return
				}
				got, ok := attrOf(n, at.attr)
				if c09Check(t, at.tag+" "+at.attr, ref, got, ok, docURI, base) {
					t.State(src)
				}
				t.Outcome(got)
			}})
			return fs
		},
		Assume: []string{"net/url implements RFC 3986 resolution", "references with a scheme but no slashes for a hierarchical scheme (http:a) are outside of the space", "references holding \",%20\" (a publisher quirk the library splits on) are outside of the space"},
	})
}

func c09Srcset(t *T, list []string, set, doc, base string) {
	// the entries of a srcset: addresses end at a blank, a comma at their end
	// separates
	rest := set
	for k, e := range list {
		ref, descr, _ := strings.Cut(e, " ")
		rest = strings.TrimLeft(rest, " \t\n,")
		j := strings.IndexAny(rest, " \t\n")
		u := rest
		if j >= 0 {
			u, rest = rest[:j], rest[j:]
		} else {
			rest = ""
		}
		tail := ""
		if strings.HasSuffix(u, ",") {
			u = strings.TrimRight(u, ",")
		} else {
			m := strings.IndexByte(rest, ',')
			if m < 0 {
				m = len(rest)
			}
			tail = strings.TrimSpace(rest[:m])
			rest = rest[m:]
		}
		want, _ := c09Expect(doc, base, ref)
		if err := c09Same(u, want); err != nil {
			t.Fail("entry %d of the srcset %q: %v", k, set, err)
			return
		}
		if tail != descr {
			t.Fail("entry %d of the srcset %q: descriptor %q, want %q", k, set, tail, descr)
			return
		}
		t.Trace()
	}
	if strings.Trim(rest, " \t\n,") != "" {
		t.Fail("the srcset %q has more than its %d entries", set, len(list))
	}
}
