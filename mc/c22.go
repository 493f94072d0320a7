package main

import (
	"strings"
	"unicode/utf8"

	readability "github.com/giulianopz/go-readability"
)

// C22: byline, language and direction.

// a marked element: A are its attributes, T its text
type c22Mark struct {
	attrs string
	is    bool // marks an author
}

var c22Marks = []c22Mark{
	{`rel="author"`, true}, {`itemprop="author"`, true}, {`itemprop="name author"`, true}, {`class="byline"`, true}, {`class="author"`, true}, {`id="author"`, true}, {`class="x article-byline y"`, true}, {`class="ByLine"`, true}, {`id="the-Author-Name"`, true}, {`class="dateline"`, true}, {`class="writtenby"`, true}, {`class="p-author h-card"`, true}, {`itemprop="authorName"`, true}, {`class="writtenBy" id="x"`, true}, {`class="x" id="byline"`, true},
	{``, false}, {`rel="nofollow"`, false}, {`rel="me"`, false}, {`itemprop="name"`, false}, {`class="by-line"`, false}, {`class="writer"`, false}, {`class="auth"`, false}, {`title="author"`, false}, {`data-author="x"`, false}, {`rel="nofollow author"`, false}, {`property="author"`, false}, {`name="byline"`, false}, {`class="written by"`, false},
}

var c22Tags = []string{"p", "div", "span", "a", "em", "section", "h3", "address", "strong", "cite", "small", "time", "td", "li", "b"}

// places: M is the marked element
var c22Places = []string{
	"<div>M<p>PROSE1</p><p>PROSE2</p></div>", "<div><p>PROSE1</p>M<p>PROSE2</p></div>", "<div><p>PROSE1</p><p>PROSE2</p>M</div>", "M<div><p>PROSE1</p><p>PROSE2</p></div>", "<div><p>PROSE1</p><p>PROSE2</p></div>M", "<article><header>M</header><div><p>PROSE1</p><p>PROSE2</p></div></article>", "<div><p>M PROSE1</p><p>PROSE2</p></div>", "<div><div><div>M</div></div><p>PROSE1</p><p>PROSE2</p></div>", "<div><p>PROSE1</p><blockquote>M</blockquote><p>PROSE2</p></div>", "<div class=\"content\"><ul><li>M</li></ul><p>PROSE1</p><p>PROSE2</p></div>",
}

func c22Page(head, place, m string) string {
	return page(head, strings.NewReplacer("PROSE1", prose("fst", 300), "PROSE2", prose("snd", 300), "M", m).Replace(place))
}

func c22El(tag, attrs, text string) string {
	switch tag {
	case "td":
		return "<table><tbody><tr><td " + attrs + ">" + text + "</td><td>" + prose("cell", 40) + "</td></tr></tbody></table>"
	case "li":
		return "<ul><li " + attrs + ">" + text + "</li></ul>"
	}
	return "<" + tag + " " + attrs + ">" + text + "</" + tag + ">"
}

// c22Judge: the byline is want; the words which start with "gone" are not in the content.
func c22Judge(t *T, src, want, gone string, opts ...readability.Option) *readability.Result {
	t.Begin("%s", src)
	res := t.MustParse(src, docURI, opts...)
	if res == nil {
		return nil
	}
	t.Trace()
	t.State(src)
	t.Outcome(res.Byline)
	if res.Byline != want {
		t.Fail("byline: got %q, want %q", res.Byline, want)
	}
	if gone != "" && (strings.Contains(res.TextContent, gone) || strings.Contains(res.HTMLContent, gone)) {
		t.Fail("the byline is also in the content: %s", short(res.HTMLContent))
	}
	for _, w := range []string{"fst", "snd"} {
		if !strings.Contains(squash(res.TextContent), prose(w, 300)) {
			t.Fail("the prose %s is not complete", w)
		}
	}
	return res
}

var c22Meta = []struct{ head, byline string }{
	{"", ""}, {`<meta name="author" content="Meta Author"/>`, "Meta Author"}, {`<script type="application/ld+json">{"@context":"https://schema.org","@type":"Article","author":{"name":"Json Author"}}</script>`, "Json Author"}, {`<meta name="author" content="  "/>`, ""}, {`<meta name="description" content="A description"/><link rel="author" href="/a"/>`, ""}, {`<meta itemprop="author" content="No text"/>`, ""},
}

func init() {
	register(&Prop{ID: "C22", Level: "model_checking",
		Rule: "every marking x element x place x metadata, every length around the limit, every sequence of up to 3 (quick) or 4 (thorough) marked elements, every assignment of dir to the chain of ancestors and of lang, against a model; non-trivial: a distinct page whose fields were compared",
		Families: func(tier string) []Family {
			var fs []Family
			fs = append(fs, Family{Name: "marks", N: size(len(c22Marks), len(c22Tags), len(c22Places), len(c22Meta)), Run: func(t *T, i uint64) {
				d := &dec{i}
				m, tag, pl, me := pick(d, c22Marks), pick(d, c22Tags), pick(d, c22Places), pick(d, c22Meta)
				want, gone := "", ""
				if m.is {
					want, gone = "By bylword0 bylword1", "bylword"
				}
				if me.byline != "" {
					want = me.byline
				}
				c22Judge(t, c22Page(me.head, pl, c22El(tag, m.attrs, " By bylword0 bylword1\n")), want, gone)
			}})
			// headings which are marked, with and without the words of the title
			htitles := []string{"other words here", "By bylword0 bylword1", "bylword0 bylword1", "By bylword0 bylword1 | Site name"}
			fs = append(fs, Family{Name: "headings", N: size(len(c22Marks), 3, len(c22Places), len(htitles), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				m, tag, pl, ti, me := pick(d, c22Marks), []string{"h1", "h2", "h4"}[d.n(3)], pick(d, c22Places), pick(d, htitles), c22Meta[d.n(2)]
				if !m.is {
					return
				}
				want := "By bylword0 bylword1"
				if me.byline != "" {
					want = me.byline
				}
				c22Judge(t, c22Page("<title>"+ti+"</title>"+me.head, pl, c22El(tag, m.attrs, "By bylword0 bylword1")), want, "bylword")
			}})
			// lengths
			fs = append(fs, Family{Name: "lengths", N: size(120, 4, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, kind, mark := d.n(120), d.n(4), d.n(3)
				var s string
				switch kind {
				case 0:
					s = strings.Repeat("x", n)
				case 1:
					s = strings.Repeat("é", n)
				case 2:
					s = "  \n\t" + strings.Repeat("y", n) + "  "
				case 3:
					if n > 4 {
						s = "a" + strings.Repeat(" ", n-2) + "b"
					}
				}
				want := ""
				if l := utf8.RuneCountInString(strings.TrimSpace(s)); l > 0 && l < 100 {
					want = strings.TrimSpace(s)
				}
				c22Judge(t, c22Page("", c22Places[0], c22El("p", c22Marks[mark*3].attrs, s)), want, "")
			}})
			// sequences: the first valid one wins
			type it struct {
				markup string
				val    string // "" if it is none
			}
			items := []it{
				{`<p class="byline">By bylN0</p>`, "By bylN0"}, {`<span rel="author">bylN0 <b>bylN1</b></span>`, "bylN0 bylN1"}, {`<p class="author"></p>`, ""}, {`<p class="author">  </p>`, ""}, {`<p class="byline">` + prose("longN", 100) + `</p>`, ""}, {`<p class="byline" hidden="">hidN0</p>`, ""}, {`<div style="display:none"><p class="byline">hidN0</p></div>`, ""}, {`<div class="comment"><p class="author">hidN0</p></div>`, ""}, {`<p>plainN0 word</p>`, ""}, {`<div class="byline"><a rel="author">bylN0</a> and bylN1</div>`, "bylN0 and bylN1"}, {`<div class="byline">` + strings.Repeat("long ", 20) + `<a rel="author">bylN0</a></div>`, "bylN0"}, {`<p itemprop="author" aria-hidden="true">hidN0</p>`, ""}, {`<div role="dialog" aria-modal="true"><p class="author">hidN0</p></div>`, ""}, {`<div role="complementary"><p class="author">hidN0</p></div>`, ""}, {`<p class="byline comment">bylN0</p>`, "bylN0"},
			}
			L := 3
			if tier == "thorough" {
				L = 4
			}
			fs = append(fs, Family{Name: "sequences", N: seqCount(len(items), 1, L) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				pl := c22Places[0:2][d.n(2)]
				var b strings.Builder
				want, gone := "", ""
				for j, k := range seqAt(d.i, len(items), 1, L) {
					nm := string(rune('a' + j))
					b.WriteString(strings.ReplaceAll(items[k].markup, "N", nm))
					if want == "" && items[k].val != "" {
						want = strings.ReplaceAll(items[k].val, "N", nm)
						gone = "byl" + nm
					}
				}
				res := c22Judge(t, c22Page("", pl, b.String()), want, gone)
				if res != nil && strings.Contains(res.TextContent, "hid") {
					t.Fail("hidden or unlikely text is in the content")
				}
			}})
			// retries: the byline is found by then, whatever pass is needed
			fs = append(fs, Family{Name: "retries", N: size(len(c22Marks), len(c22Tags), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				m, tag, fr := pick(d, c22Marks), pick(d, c22Tags), d.n(4)
				el := c22El(tag, m.attrs, "By bylword0 bylword1")
				var src string
				switch fr {
				case 0:
					src = page("", "<div>"+el+"<p>"+prose("fst", 90)+"</p></div>")
				case 1:
					src = page("", el+"<div class=\"comment\"><p>"+prose("fst", 300)+"</p></div>")
				case 2:
					src = page("", "<p>"+prose("fst", 60)+"</p>"+el)
				case 3:
					src = "<body>" + el + "<p>" + prose("fst", 90) + "</p></body>"
				}
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				want := ""
				if m.is {
					want = "By bylword0 bylword1"
				}
				if res != nil {
					t.Trace()
					t.State(src)
					if res.Byline != want {
						t.Fail("byline: got %q, want %q", res.Byline, want)
					}
				}
			}})
			// dir: html, body, outer, parent, candidate, paragraph
			dirs := []string{"", `dir="ltr"`, `dir="rtl"`, `dir=""`, `dir="auto"`}
			fs = append(fs, Family{Name: "dir", N: size(5, 5, 5, 5, 5, 2, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				var v []string
				for k := 0; k < 5; k++ {
					v = append(v, pick(d, dirs))
				}
				pd, long := d.b(), d.b()
				inner := ""
				if pd {
					inner = ` dir="inner"`
				}
				n := 300
				if !long {
					n = 120
				}
				// every level has more than one child
				src := "<html " + v[0] + "><head></head><body " + v[1] + "><p>small0</p><main " + v[2] + "><p>small1</p><article " + v[3] + "><span>small2</span><div " + v[4] + "><p" + inner + ">" + prose("fst", n) + "</p><p>" + prose("snd", n) + "</p></div></article></main></body></html>"
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				want := ""
				for _, k := range []int{3, 4, 2, 1, 0} { // the container of the candidate, the candidate, then outwards
					if x := strings.TrimSuffix(strings.TrimPrefix(v[k], `dir="`), `"`); x != "" && want == "" {
						want = x
					}
				}
				t.Trace()
				t.State(src)
				t.Outcome("dir", want)
				if res.Dir != want {
					t.Fail("dir of html, body, outer, parent, candidate = %q: got %q, want %q", v, res.Dir, want)
				}
			}})
			// competing parts of the page, each with a direction of its own: it is that of the part which is returned
			wMarks := []string{"", `class="comment"`, `class="sidebar"`, `class="content"`, `role="menu"`}
			wFill := []int{0, 1, 2, 3}
			wDirs := []string{"", `dir="ltr"`, `dir="rtl"`}
			fs = append(fs, Family{Name: "winner", N: size(len(wMarks), len(wMarks), len(wFill), len(wFill), 3, 3, 2, 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				m := []string{pick(d, wMarks), pick(d, wMarks)}
				f := []int{d.n(4), d.n(4)}
				dr := []string{pick(d, wDirs), pick(d, wDirs)}
				html, sizes := d.n(2), d.n(4)
				hd := ""
				if html == 1 {
					hd = ` dir="page"`
				}
				var b strings.Builder
				for j, w := range []string{"aaa", "bbb"} {
					n := []int{90, 200}[sizes>>j&1]
					var txt string
					switch f[j] {
					case 0:
						txt = "<p>" + prose(w, n) + "</p><p>" + prose(w+"x", n) + "</p>"
					case 1: // commas
						txt = "<p>" + strings.Repeat(w+", ", n/5) + "</p><p>" + w + " end</p>"
					case 2: // links
						txt = "<p><a href=\"https://e.example/\">" + prose(w, n) + "</a></p><p>" + prose(w+"x", n/4) + "</p>"
					case 3: // a list
						txt = "<ul><li>" + prose(w, n) + "</li><li>" + prose(w+"x", n) + "</li></ul>"
					}
					b.WriteString("<section " + m[j] + " " + dr[j] + "><p>" + w + "s</p><div " + dr[j] + "><p>" + w + "t</p><div " + dr[j] + ">" + txt + "</div></div></section>")
				}
				src := "<html" + hd + "><head></head><body><p>first</p>" + b.String() + "</body></html>"
				t.Begin("%s", src)
				res, err := t.Parse(src, docURI)
				if err != nil || res == nil {
					return
				}
				ha, hb := strings.Contains(res.TextContent, "aaa"), strings.Contains(res.TextContent, "bbb")
				if ha == hb || strings.Contains(res.TextContent, "first") { // more than one part: it has no direction of its own
					return
				}
				won := 0
				if hb {
					won = 1
				}
				want := strings.Trim(strings.TrimPrefix(dr[won], "dir="), `"`)
				if want == "" && html == 1 {
					want = "page"
				}
				t.Trace()
				t.State(src)
				t.Outcome("winner", string(rune(65+won)), want)
				if res.Dir != want {
					t.Fail("the direction of the part which is returned (%d) is %q: got %q", won, want, res.Dir)
				}
			}})
			langs := []string{"", `lang=""`, `lang="en"`, `lang="pt-BR"`, `LANG="it"`, `xml:lang="de"`, `lang=" fr "`}
			bodyL := []string{"", `lang="xx"`}
			heads := []string{"", `<meta http-equiv="content-language" content="zz"/>`, `<meta name="language" content="yy"/>`}
			fs = append(fs, Family{Name: "lang", N: size(len(langs), len(bodyL), 2, len(heads), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				l, b, dv, h, fr := d.n(len(langs)), pick(d, bodyL), d.b(), pick(d, heads), d.n(4)
				inner := ""
				if dv {
					inner = ` lang="ww"`
				}
				cont := "<div" + inner + "><p>" + prose("fst", 300) + "</p><p>" + prose("snd", 300) + "</p></div>"
				if fr == 1 {
					cont = "<div" + inner + "><p>" + prose("fst", 80) + "</p></div>"
				}
				src := "<html " + langs[l] + "><head>" + h + "</head><body " + b + ">" + cont + "</body></html>"
				if fr == 2 {
					src = "<!DOCTYPE html>\n<!-- c -->\n" + src
				}
				want := []string{"", "", "en", "pt-BR", "it", "", " fr "}[l]
				if fr == 3 {
					src, want = "<head>"+h+"</head><body "+b+">"+cont+"</body>", ""
				}
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				t.Trace()
				t.State(src)
				t.Outcome("lang", want)
				if res.Lang != want {
					t.Fail("lang: got %q, want %q", res.Lang, want)
				}
			}})
			return fs
		},
	})
}
