package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// C02: the outcome contract.

type block struct {
	html string // Q is replaced with a distinct word prefix
	text bool   // offers readable text
	n    int    // number of elements
	name string
}

var c02Blocks = []block{
	{"<p>Q0 Q1 Q2</p>", true, 1, "short paragraph"},
	{"<div>Q0 Q1</div>", true, 1, "short div"},
	{"Q0", true, 0, "bare word"},
	{"<p></p>", false, 1, "empty paragraph"},
	{"<div></div>", false, 1, "empty div"},
	{"<img src=\"a.jpg\"/>", false, 1, "image"},
	{"<script>Q0</script>", false, 1, "script"},
	{"<style>Q0</style>", false, 1, "style"},
	{"<noscript>Q0</noscript>", false, 1, "noscript"},
	{"<p hidden=\"\">Q0 Q1</p>", false, 1, "hidden paragraph"},
	{"<div style=\"display:none\"><p>Q0</p></div>", false, 2, "undisplayed div"},
	{"<!-- Q0 -->", false, 0, "comment"},
	{" \n ", false, 0, "blanks"},
	{"<footer>Q0</footer>", false, 1, "footer"},
	{"<aside>Q0</aside>", false, 1, "aside"},
	{"<button>Q0</button>", false, 1, "button"},
	{"<div role=\"dialog\">Q0 Q1</div>", false, 1, "dialog"},
	{"<div class=\"sidebar\">Q0 Q1</div>", true, 1, "unlikely div"},
	{"<ul><li><a href=\"x\">Q0</a></li></ul>", true, 3, "list of links"},
	{"<h2>Q0 Q1</h2>", true, 1, "heading"},
	{"<p>PROSE</p>", true, 1, "long paragraph"},
	{"<div class=\"comment\"><p>PROSE</p></div>", true, 2, "unlikely long div"},
	{"<table><tr><td>Q0</td></tr></table>", true, 3, "table"},
	{"<br/>", false, 1, "br"},
	{"<a href=\"x\"></a>", false, 1, "empty link"},
	{"<iframe src=\"//ads.example/x\"></iframe>", false, 1, "iframe"},
}

func (b block) render(tag string) string {
	s := strings.ReplaceAll(b.html, "PROSE", prose(tag, 180))
	return strings.ReplaceAll(s, "Q", tag)
}

func tagN(i int) string { return string(rune('b'+i)) + "w" }

func c02Doc(seq []int, frame int) (string, bool, int) {
	var b strings.Builder
	text, n := false, 0
	for i, k := range seq {
		b.WriteString(c02Blocks[k].render(tagN(i)))
		text = text || c02Blocks[k].text
		n += c02Blocks[k].n
	}
	switch frame {
	case 0:
		return "<html><head><title>some title</title></head><body>" + b.String() + "</body></html>", text, n + 4
	case 1:
		return "<html><body><div>" + b.String() + "</div></body></html>", text, n + 3
	case 2:
		return "<body>" + b.String() + "</body>", text, n + 1
	}
	return "<!DOCTYPE html><html><head><meta name=\"x\" content=\"y\"/></head><body><section><article>" + b.String() + "</article></section></body></html>", text, n + 6
}

func init() {
	register(&Prop{ID: "C02", Level: "model_checking",
		Rule: "every document built from up to 3 (quick) or 4 (thorough) building blocks in 4 frames, every element limit around its size and every positive threshold class; the model predicts result or error; non-trivial: Parse was reached",
		Families: func(tier string) []Family {
			l := 3
			if tier == "thorough" {
				l = 4
			}
			nb := len(c02Blocks)
			var fs []Family
			thr := []int{1, 120, 500, 100000}
			fs = append(fs, Family{Name: "outcome", N: seqCount(nb, 0, l) * 4 * uint64(len(thr)), Run: func(t *T, i uint64) {
				d := &dec{i}
				th, frame := pick(d, thr), d.n(4)
				src, text, _ := c02Doc(seqAt(d.i, nb, 0, l), frame)
				t.Begin("threshold=%d %s", th, src)
				res, err := t.Parse(src, docURI, readability.CharThreshold(th))
				c02Judge(t, res, err, text)
			}})
			fs = append(fs, Family{Name: "element-limit", N: seqCount(nb, 0, 2) * 4 * 9, Run: func(t *T, i uint64) {
				d := &dec{i}
				k, frame := d.n(9), d.n(4)
				src, text, n := c02Doc(seqAt(d.i, nb, 0, 2), frame)
				limit := []int{-1, 0, 1, n - 1, n, n + 1, n + 7, 1 << 40, 2}[k]
				t.Begin("limit=%d elements=%d %s", limit, n, src)
				res, err := t.Parse(src, docURI, readability.MaxElemsToParse(limit))
				c02Judge(t, res, err, text && !(limit > 0 && n > limit))
			}})
			// documents of a given small size: every length counts
			letters := []string{"a", "\u00e9", "\u4e2d", "7", ".", "&amp;"}
			shapes := []string{"<p>@</p>", "<div>@</div>", "@", "<ul><li>@</li></ul>", "<p><b>@</b></p>", "<span>@</span>", "<table><tr><td>@</td></tr></table>", "<pre>@</pre>", "<div><div>@</div></div>", "<p></p><p>@</p><p> </p>"}
			lens := []int{0, 1, 2, 3, 4, 5, 8, 9, 10, 13, 19, 20, 21, 24, 25, 26, 49, 50, 51, 79, 80, 81, 99, 100, 101, 119, 120, 139, 140, 141, 199, 200, 249, 250, 251, 499, 500, 501}
			fs = append(fs, Family{Name: "size", N: uint64(len(letters) * len(shapes) * len(lens) * 4 * 5), Run: func(t *T, i uint64) {
				d := &dec{i}
				ch, sh, n, frame, k := pick(d, letters), pick(d, shapes), pick(d, lens), d.n(4), d.n(5)
				th := []int{1, n - 1, n, n + 1, 500}[k]
				if th < 1 {
					return
				}
				src := strings.ReplaceAll(sh, "@", strings.Repeat(ch, n))
				switch frame {
				case 0:
					src = "<html><head><title>some title</title></head><body>" + src + "</body></html>"
				case 1:
					src = "<html><body><div>" + src + "</div></body></html>"
				case 2:
					src = "<body>" + src + "</body>"
				case 3:
					src = "<html><body><article>" + src + "</article></body></html>"
				}
				t.Begin("threshold=%d %s", th, src)
				res, err := t.Parse(src, docURI, readability.CharThreshold(th))
				c02Judge(t, res, err, n > 0)
			}})
			// a constructor's view: with and without a body
			ft := []string{"", " ", "x", "<p>x</p>", "<html>", "</html>", "<head><title>t</title></head>", "<body>", "</body>", "<!-- <body> -->", "<body/>", "<BODY class=\"x\">", "<div>", "<script><!-- </script>", "<!DOCTYPE html>", "&lt;body&gt;", "<bodyguard>", "<frameset>"}
			hasBody := func(s string) bool {
				return strings.HasPrefix(strings.ToLower(s), "<body") && !strings.HasPrefix(s, "<bodyg")
			}
			fs = append(fs, Family{Name: "constructor", N: seqCount(len(ft), 0, 4), Run: func(t *T, i uint64) {
				var b strings.Builder
				body := false
				raw := false
				for _, k := range seqAt(i, len(ft), 0, 4) {
					// what follows an unterminated script comment is none of our business
					if ft[k] == "<script><!-- </script>" {
						raw = true
					}
					body = body || hasBody(ft[k])
					b.WriteString(ft[k])
				}
				src := b.String()
				t.Begin("%q", src)
				t.Trans++
				r, err := readability.New(src, docURI)
				if raw && body {
					body = r != nil
				}
				t.Trace()
				t.State(src, fmt.Sprint(body))
				t.Outcome(fmt.Sprint(err))
				if (r == nil) == (err == nil) {
					t.Fail("New returned r=%v err=%v: exactly one of them is expected", r != nil, err)
				}
				if body != (err == nil) {
					t.Fail("a document with body=%v was answered with error=%v", body, err)
				}
				if err == nil {
					res, err := r.Parse()
					if (res == nil) == (err == nil) {
						t.Fail("Parse returned res=%v err=%v: exactly one of them is expected", res != nil, err)
					}
				}
			}})
			// any bytes around a document: it still has a body
			bts := []string{"\ufeff", "\u200b", "\u2028", "\x00\x00", "\r\n", "\n\n\n", "\t \t", "\xef\xbb\xbf<?xml version=\"1.0\"?>", "\xff\xfe", "\xfe\xff", "<?xml version=\"1.0\"?>", "<!-- c -->", "<!DOCTYPE html>", "<!DOCTYPE HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\">", "&#65279;", "\xc3\x28", "\xed\xa0\x80"}
			for c := 0; c < 256; c++ {
				if c != '<' {
					bts = append(bts, string([]byte{byte(c)}))
				}
			}
			fs = append(fs, Family{Name: "bytes-around", N: size(len(bts), 4, 4, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				x, place, doc, rep := pick(d, bts), d.n(4), d.n(4), []int{1, 2, 9}[d.n(3)]
				x = strings.Repeat(x, rep)
				var pc [4]string
				pc[place] = x
				head, body := "<head><title>t</title></head>", "<p>"+prose("v", 600)+"</p>"
				fail := ""
				var opts []readability.Option
				switch doc {
				case 1:
					head = ""
				case 2:
					opts, fail = []readability.Option{readability.MaxElemsToParse(1)}, "limit"
				case 3:
					body, opts = "<p>v w</p>", []readability.Option{readability.CharThreshold(1)}
				}
				src := pc[0] + "<html>" + pc[1] + head + pc[2] + "<body>" + body + "</body></html>" + pc[3]
				t.Begin("%q", src)
				t.Trans++
				r, err := readability.New(src, docURI, opts...)
				if r == nil || err != nil {
					t.Fail("a document with a body was refused: %v", err)
					return
				}
				t.Trace()
				t.State(src)
				res, err := r.Parse()
				t.Outcome(fmt.Sprint(err))
				if (res == nil) == (err == nil) {
					t.Fail("Parse returned res=%v err=%v: exactly one of them is expected", res != nil, err)
				}
				if (err != nil) != (fail != "") {
					t.Fail("doc=%d was answered with %v", doc, err)
				}
			}})
			return fs
		}})

	register(&Prop{ID: "C03", Level: "exploration",
		Rule: "every sequence of up to 3 (quick) or 4 (thorough) content blocks x metadata x options; the fields of the result are compared with each other through an independent tokenizer; non-trivial: a result was returned",
		Families: func(tier string) []Family {
			l := 3
			if tier == "thorough" {
				l = 4
			}
			nb := len(c03Blocks)
			var fs []Family
			fs = append(fs, Family{Name: "coherence", N: seqCount(nb, 1, l) * 6, Run: func(t *T, i uint64) {
				d := &dec{i}
				k := d.n(6)
				var b strings.Builder
				for j, x := range seqAt(d.i, nb, 1, l) {
					b.WriteString(strings.ReplaceAll(strings.ReplaceAll(c03Blocks[x], "PROSE", prose(tagN(j), 180)), "Q", tagN(j)))
				}
				c03Case(t, b.String(), k)
			}})
			names := minedNames()
			fs = append(fs, Family{Name: "mined-elements", N: uint64(len(names) * 8 * 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, f := d.n(2)*3, d.n(8)
				n := names[d.i]
				switch n {
				// raw text elements have their own tokenization rules
				case "script", "noscript", "style", "title", "textarea", "iframe", "noembed", "noframes", "xmp", "plaintext", "html", "body", "head", "svg", "math":
					return
				}
				P := "<p>" + prose("x", 300) + "</p>"
				c03Case(t, []string{
					"<" + n + ">w1 w2, w3</" + n + ">" + P,
					P + "<" + n + "><p>" + prose("y", 120) + "</p><p>w9</p></" + n + ">",
					"<div class=\"" + n + "\"><p>" + prose("y", 220) + "</p></div>" + P,
					"<div><" + n + ">" + prose("y", 260) + "</" + n + "><" + n + ">" + prose("z", 260) + "</" + n + "></div>",
					P + "<p>a <" + n + ">b</" + n + "> c <" + n + " " + n + "=\"" + n + "\"/> d</p>",
					"<" + n + "/>" + P + "<" + n + "/>",
					"<p id=\"" + n + "\" " + n + "=\"\">w1</p>" + P + P,
					"<section id=\"" + n + "\">" + P + "</section><section id=\"" + n + "\">" + P + "</section>",
				}[f], k)
			}})
			seps := []string{"\n", "\n\n\t  ", "\u00a0", " "}
			fs = append(fs, Family{Name: "layout", N: seqCount(nb, 1, 2) * uint64(len(seps)) * 3 * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				sep, f, k := pick(d, seps), d.n(3), d.n(2)*3
				b := sep
				for j, x := range seqAt(d.i, nb, 1, 2) {
					b += strings.ReplaceAll(strings.ReplaceAll(c03Blocks[x], "PROSE", prose(tagN(j), 180)), "Q", tagN(j)) + sep
				}
				c03Case(t, []string{b, "<div>" + b + "</div>", "<article>" + sep + "<div>" + b + "</div>" + sep + "</article>" + sep}[f], k)
			}})
			// every character of the first blocks of Unicode and of the general
			// punctuation and symbols, the specials and some of the upper planes
			var chars []rune
			for c := rune(1); c < 0x3100; c++ {
				if c != '<' && c != '&' && (c < 0x370 || c >= 0x2000 || c%8 == 0) {
					chars = append(chars, c)
				}
			}
			for c := rune(0xf8f0); c < 0x10000; c++ {
				chars = append(chars, c)
			}
			chars = append(chars, 0xd7ff, 0xe000, 0x10000, 0x1f469, 0x1f1e6, 0xe0001, 0xe0100, 0x10ffff)
			fs = append(fs, Family{Name: "characters", N: uint64(len(chars) * 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				f := d.n(4)
				c := string(chars[d.i])
				c03Case(t, []string{
					"<p>w0 w" + c + "1 w2</p>",
					"<p>" + c + prose("x", 200) + "</p><p>w9" + c + c + "</p>",
					"<div>" + c + "w0" + c + "</div>",
					"<h2>w0 " + c + " w1</h2><p>" + prose("x", 200) + " " + c + "</p>" + c,
				}[f], 0)
			}})
			fs = append(fs, Family{Name: "callbacks", N: seqCount(nb, 1, 2) * 4 * uint64(len(c03Returns)), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, ret := d.n(4), pick(d, c03Returns)
				if k == 0 && ret != "" {
					return
				}
				var b strings.Builder
				for j, x := range seqAt(d.i, nb, 1, 2) {
					b.WriteString(strings.ReplaceAll(strings.ReplaceAll(c03Blocks[x], "PROSE", prose(tagN(j), 180)), "Q", tagN(j)))
				}
				src := page("", b.String())
				t.Begin("callbacks=%d %s", k, src)
				plain, perr := t.Parse(src, docURI)
				calls, h2t := 0, ""
				var seen string
				opts := []readability.Option{}
				if k&1 == 1 {
					opts = append(opts, readability.Serializer(func(n *readability.Node) string {
						calls++
						seen = n.GetInnerHTML()
						return ret
					}))
				}
				if k&2 == 2 {
					opts = append(opts, readability.Html2Text(func(s string) string { h2t = s; return ret + "é" }))
				}
				res, err := t.Parse(src, docURI, opts...)
				if (err == nil) != (perr == nil) {
					t.Fail("callbacks changed the outcome: %v vs %v", err, perr)
					return
				}
				if err != nil {
					return
				}
				t.State(src, fmt.Sprint(k), ret)
				if k&1 == 1 {
					if calls != 1 {
						t.Fail("the serializer was called %d times", calls)
					}
					if seen != plain.HTMLContent {
						t.Fail("the serializer was given %q instead of the article %q", seen, plain.HTMLContent)
					}
					if res.HTMLContent != ret {
						t.Fail("the content is not what the serializer returned: %q", res.HTMLContent)
					}
				} else if res.HTMLContent != plain.HTMLContent {
					t.Fail("content differs: %q vs %q", res.HTMLContent, plain.HTMLContent)
				}
				if k&2 == 2 {
					if h2t != res.HTMLContent {
						t.Fail("the text converter was given %q instead of the content %q", h2t, res.HTMLContent)
					}
					if res.TextContent != ret+"é" || res.Length != utf8.RuneCountInString(ret)+1 {
						t.Fail("text %q length %d is not what the converter returned", res.TextContent, res.Length)
					}
				} else if res.TextContent != plain.TextContent || res.Length != plain.Length {
					t.Fail("text differs: %q vs %q", res.TextContent, plain.TextContent)
				}
				if res.Title != plain.Title || res.Excerpt != plain.Excerpt || res.Byline != plain.Byline {
					t.Fail("callbacks changed the other fields")
				}
			}})
			return fs
		}})
}

// what the caller's own serializer or text function answers
var c03Returns = []string{"", "<i>mine</i>", " \n<p>a</p>\n ", "&amp; a  b\tc\u00a0", "\u6f22\u00e9\U0001f600 <", strings.Repeat("long ", 300)}

var c03Blocks = []string{
	"<p>PROSE</p>",
	"<p>Q0 é漢字 Q1 \U0001F600.</p>",
	"<div>Q0 &amp; Q1 &lt;b&gt; Q2</div>",
	"<div><p>PROSE</p><p>Q9</p></div>",
	"<section class=\"x\"><h2>Q0</h2><p>PROSE</p></section>",
	"<ul><li>Q0</li><li>Q1 Q2</li></ul>",
	"<img src=\"a.jpg\" alt=\"Q0\"/>",
	"<table><tr><td>Q0</td><td>Q1</td></tr></table>",
	"<table><tr><td>PROSE</td></tr></table>",
	"Q0 Q1<br/><br/>Q2 Q3",
	"<blockquote>PROSE</blockquote>",
	"<pre>Q0\n  Q1</pre>",
	"<p>  </p>",
	"<p><a href=\"javascript:x\">Q0</a> Q1</p>",
	"<h1>Q0 Q1</h1>",
	"<div><div><div>PROSE</div></div></div>",
	"<p><![CDATA[Q0 <b> & Q1]]></p>",
	"<div class=\"sidebar\"><p>PROSE</p></div>",
	"<figure><img src=\"b.png\"/><figcaption>Q0</figcaption></figure>",
	"<p class=\"page\" id=\"readability-page-2\">Q0 Q1</p>",
	"<p title=\"a &quot;q&quot; 'r' &lt;x&gt;\">Q0</p>",
	"<article><p>PROSE</p></article>",
	"<span>Q0</span> <em>Q1</em>",
	"<form><p>Q0</p><input/></form>",
}

func c02Judge(t *T, res *readability.Result, err error, expect bool) {
	t.Trace()
	t.State(t.desc, fmt.Sprint(expect))
	if (res == nil) == (err == nil) {
		t.Fail("Parse returned res=%v err=%v: exactly one of them is expected", res != nil, err)
		return
	}
	t.Outcome(fmt.Sprint(err))
	if expect != (err == nil) {
		t.Fail("expected a result: %v, got the error: %v", expect, err)
	}
	if res != nil && strings.TrimSpace(res.TextContent) == "" {
		t.Fail("a result without any text: %q", res.HTMLContent)
	}
}

// tokens checks that markup is balanced and returns its text.
func balancedText(s string) (text string, roots []html.Token, problem string) {
	z := html.NewTokenizer(strings.NewReader(s))
	var stack []string
	var b strings.Builder
	void := map[string]bool{"area": true, "base": true, "br": true, "col": true, "command": true, "embed": true, "hr": true, "img": true, "input": true, "link": true, "meta": true, "param": true, "source": true, "wbr": true}
	for {
		switch z.Next() {
		case html.ErrorToken:
			if len(stack) > 0 {
				problem = "never closed: " + strings.Join(stack, " > ")
			}
			return b.String(), roots, problem
		case html.TextToken:
			if len(stack) == 0 && strings.TrimSpace(string(z.Raw())) != "" {
				problem = "text outside of the root: " + string(z.Raw())
			}
			b.WriteString(html.UnescapeString(string(z.Raw())))
		case html.StartTagToken:
			tk := z.Token()
			z.NextIsNotRawText()
			if len(stack) == 0 {
				roots = append(roots, tk)
			}
			_ = void
			stack = append(stack, tk.Data)
		case html.SelfClosingTagToken:
			tk := z.Token()
			z.NextIsNotRawText()
			if len(stack) == 0 {
				roots = append(roots, tk)
			}
		case html.EndTagToken:
			tk := z.Token()
			if len(stack) == 0 || stack[len(stack)-1] != tk.Data {
				return b.String(), roots, fmt.Sprintf("</%s> closes nothing (open: %v)", tk.Data, stack)
			}
			stack = stack[:len(stack)-1]
		}
	}
}

var newlines = strings.NewReplacer("\r\n", "\n", "\r", "\n")

func c03Case(t *T, body string, k int) {
	head := ""
	var opts []readability.Option
	meta := ""
	switch k {
	case 1:
		meta = "the description"
		head = `<meta name="description" content="  the description "/>`
	case 2:
		opts = append(opts, readability.CharThreshold(100000))
	case 3:
		opts = append(opts, readability.CharThreshold(1))
	case 4:
		opts = append(opts, readability.KeepClasses(true), readability.CharThreshold(150))
	case 5:
		head = `<title>aw0 aw1 aw2</title>`
	}
	src := page(head, body)
	t.Begin("variant=%d %s", k, src)
	res, err := t.Parse(src, docURI, opts...)
	if err != nil {
		t.Outcome(err.Error())
		return
	}
	t.State(src, fmt.Sprint(k))
	t.Outcome(res.HTMLContent)
	text, roots, problem := balancedText(res.HTMLContent)
	if problem != "" {
		t.Fail("unbalanced content: %s\n%s", problem, res.HTMLContent)
	}
	if len(roots) != 1 || roots[0].Data != "div" {
		t.Fail("the content is not in one div: %s", res.HTMLContent)
	} else {
		id, class := "", ""
		for _, a := range roots[0].Attr {
			if a.Key == "id" {
				id = a.Val
			}
			if a.Key == "class" {
				class = a.Val
			}
		}
		if id != "readability-page-1" || class != "page" {
			t.Fail("the wrapper is id=%q class=%q: %s", id, class, res.HTMLContent)
		}
	}
	// an HTML parser reads a carriage return as a line feed
	if newlines.Replace(text) != newlines.Replace(res.TextContent) {
		t.Fail("TextContent is not the text of HTMLContent: %q vs %q", res.TextContent, text)
	}
	if res.Length != utf8.RuneCountInString(res.TextContent) {
		t.Fail("Length=%d, but the text has %d characters", res.Length, utf8.RuneCountInString(res.TextContent))
	}
	// the excerpt: the description, or the first paragraph
	want := meta
	if want == "" {
		want = firstParagraph(res.HTMLContent)
	}
	if newlines.Replace(res.Excerpt) != newlines.Replace(want) {
		t.Fail("excerpt %q, expected %q in %s", res.Excerpt, want, res.HTMLContent)
	}
}

// firstParagraph returns the text of the first p element.
func firstParagraph(s string) string {
	z := html.NewTokenizer(strings.NewReader(s))
	depth := 0
	var b strings.Builder
	for {
		switch z.Next() {
		case html.ErrorToken:
			return strings.TrimSpace(b.String())
		case html.TextToken:
			if depth > 0 {
				b.WriteString(html.UnescapeString(string(z.Raw())))
			}
		case html.StartTagToken:
			tk := z.Token()
			z.NextIsNotRawText()
			if tk.Data == "p" {
				depth++
			}
		case html.SelfClosingTagToken:
			z.NextIsNotRawText()
		case html.EndTagToken:
			if z.Token().Data == "p" && depth > 0 {
				depth--
				if depth == 0 {
					return strings.TrimSpace(b.String())
				}
			}
		}
	}
}
