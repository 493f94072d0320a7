package main

import (
	"fmt"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// C20: allowed videos survive, other embeds do not.

var c20Hosts = []string{"dailymotion.com", "youtube.com", "youtube-nocookie.com", "player.vimeo.com", "v.qq.com", "archive.org", "upload.wikimedia.org", "player.twitch.tv"}

// c20Default is the model of the default pattern.
func c20Default(v string) bool {
	v = strings.ToLower(v)
	for i := 0; i+1 < len(v); i++ {
		if v[i:i+2] != "//" {
			continue
		}
		for _, rest := range []string{v[i+2:], strings.TrimPrefix(v[i+2:], "www.")} {
			for _, h := range c20Hosts {
				if strings.HasPrefix(rest, h) {
					return true
				}
			}
		}
	}
	return false
}

type c20Pat struct {
	name string
	opts []readability.Option
	ok   func(string) bool
}

func c20Contains(subs ...string) func(string) bool {
	return func(v string) bool {
		for _, s := range subs {
			if strings.Contains(v, s) {
				return true
			}
		}
		return false
	}
}

var c20Pats = []c20Pat{
	{"default", nil, c20Default},
	{"custom", []readability.Option{readability.AllowedVideoRegex(regexp.MustCompile(`media\.example|videos\.example`))}, c20Contains("media.example", "videos.example")},
	{"path", []readability.Option{readability.AllowedVideoRegex(regexp.MustCompile(`/allowed/`))}, c20Contains("/allowed/")},
	{"nothing", []readability.Option{readability.AllowedVideoRegex(regexp.MustCompile(`^never\z$x`))}, func(string) bool { return false }},
	{"everything", []readability.Option{readability.AllowedVideoRegex(regexp.MustCompile(``))}, func(string) bool { return true }},
	{"nil", []readability.Option{readability.AllowedVideoRegex(nil)}, func(string) bool { return false }},
}

var c20URLs = func() []string {
	var out []string
	for _, h := range c20Hosts {
		out = append(out, "https://"+h+"/embed/1", "//www."+h+"/x?y=1", "HTTP://"+strings.ToUpper(h)+"/V")
	}
	return append(out, "https://vimeo.com/1", "http://notyoutube.com/e", "https://m.youtube.com/e", "youtube.com/embed/1", "//youtube.org/e", "https://www.www.youtube.com/e", "//youtubexcom/e", "https://qq.com/v", "http://ads.example/frame", "/relative/frame", "", "http://media.example/allowed/1", "http://videos.example/2", "http://other.example/allowed/3", "http://ads.example/?u=//www.youtube.com/embed/4", "https://twitch.tv/x", "https://player-vimeo.com/x", "javascript:void(0)", "about:blank", "https://wikimedia.org/x", "http://archive.org.example/x", "//playerxvimeo.com/1", "//vxqq.com/1", "//player.twitchxtv/1", "//uploadxwikimedia.org/1", "//archivexorg/1", "//wwwxyoutube.com/1")
}()

// c20El is an embed of the model.
type c20El struct {
	tag   string
	attrs [][2]string
	kids  string // markup of the children: embeds of their own are described by inner
	inner []*c20El
	id    int
}

func (e *c20El) render(b *strings.Builder) {
	fmt.Fprintf(b, `<%s data-n="n%d"`, e.tag, e.id)
	for _, a := range e.attrs {
		fmt.Fprintf(b, ` %s="%s"`, a[0], strings.NewReplacer("&", "&amp;", `"`, "&quot;").Replace(a[1]))
	}
	b.WriteString(">" + e.kids)
	for _, k := range e.inner {
		k.render(b)
	}
	b.WriteString("</" + e.tag + ">")
}

// allowed: the values of the attributes, or the markup inside of an object.
func (e *c20El) allowed(ok func(string) bool) bool {
	for _, a := range e.attrs {
		if ok(a[1]) {
			return true
		}
	}
	if ok(fmt.Sprintf("n%d", e.id)) {
		return true
	}
	if e.tag == "object" {
		var b strings.Builder
		b.WriteString(e.kids)
		for _, k := range e.inner {
			k.render(&b)
		}
		return ok(b.String())
	}
	return false
}

func (e *c20El) expect(ok func(string) bool, alive bool, out map[int]bool) {
	alive = alive && e.allowed(ok)
	out[e.id] = alive
	for _, k := range e.inner {
		k.expect(ok, alive, out)
	}
}

var c20Places = []string{
	"<p>alpha0 E omega0</p>", "<p>E</p>", "E", "<div>E</div>", "<figure>E</figure>", "<blockquote><p>PROSE3</p>E</blockquote>", "<div><p>PROSE3</p>E</div>", "<span>E</span>", "<section>E</section>", "<div><div>E</div></div>", "<center>E</center>", "<div class=\"video\"><p>E</p></div>", "<p><span>E</span></p>", "<div>\n E \n</div>",
}

func c20Run(t *T, pat c20Pat, place string, es []*c20El, frame int) {
	var b strings.Builder
	want := map[int]bool{}
	for _, e := range es {
		e.render(&b)
		e.expect(pat.ok, true, want)
	}
	body := strings.NewReplacer("PROSE3", prose("thd", 160), "E", b.String()).Replace(place)
	var src string
	opts := pat.opts
	switch frame {
	case 0:
		src = page("", "<div><p>"+prose("fst", 300)+"</p>"+body+"<p>"+prose("snd", 300)+"</p></div>")
	case 1: // every pass is needed, the longest one wins
		src = page("", "<div><p>"+prose("fst", 100)+"</p>"+body+"<p>"+prose("snd", 100)+"</p></div>")
	case 2:
		src = page("", "<article><div><p>"+prose("fst", 300)+"</p></div>"+body+"<div><p>"+prose("snd", 300)+"</p></div></article>")
	case 3, 4, 5: // the second, third or fourth pass yields the most text
		extra := []string{`<div class="sidebar"><p>` + prose("xtr", 120) + `</p></div>`, `<div class="promo widget"><p>` + prose("xtr", 120) + `</p></div>`, `<div><a href="/a">` + prose("xtr", 120) + `</a></div>`}[frame-3]
		src = page("", "<div><p>"+prose("fst", 100)+"</p>"+body+"<p>"+prose("snd", 100)+"</p>"+extra+"</div>")
	}
	t.Begin("%s %s", pat.name, src)
	res := t.MustParse(src, docURI, opts...)
	if res == nil {
		return
	}
	t.Trace()
	t.State(pat.name, src)
	t.Outcome(fmt.Sprint(want, frame, strings.Contains(res.TextContent, "xtr0")))
	root := parseOut(res.HTMLContent)
	seen := map[string]*html.Node{}
	// the serialized frame of an iframe is raw text: read the tags off a tokenizer
	z := html.NewTokenizer(strings.NewReader(res.HTMLContent))
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		if tt == html.StartTagToken || tt == html.SelfClosingTagToken {
			tok := z.Token()
			if tok.Data == "iframe" || tok.Data == "embed" || tok.Data == "object" {
				n := &html.Node{Type: html.ElementNode, Data: tok.Data, Attr: tok.Attr}
				id, _ := attrOf(n, "data-n")
				if seen[id] != nil {
					t.Fail("%s is there twice", id)
				}
				seen[id] = n
			}
		}
	}
	var check func(e *c20El)
	check = func(e *c20El) {
		n := seen[fmt.Sprintf("n%d", e.id)]
		if want[e.id] && n == nil {
			t.Fail("the %s %v matches the pattern and is not in the content: %s", e.tag, e.attrs, short(res.HTMLContent))
			return
		}
		if !want[e.id] && n != nil {
			t.Fail("the %s %v does not match the pattern and is in the content", e.tag, e.attrs)
			return
		}
		if n != nil {
			for _, a := range e.attrs {
				if got, _ := attrOf(n, a[0]); got != a[1] {
					t.Fail("the %s lost its %s: got %q, want %q", e.tag, a[0], got, a[1])
				}
			}
		}
		for _, k := range e.inner {
			check(k)
		}
	}
	for _, e := range es {
		check(e)
	}
	txt := squash(textOf(root))
	for _, w := range []string{"fst", "snd"} {
		p := prose(w, 300)
		if frame == 1 || frame > 2 {
			p = prose(w, 100)
		}
		if !strings.Contains(txt, p) {
			t.Fail("the prose %s is not complete", w)
		}
	}
	if strings.Contains(place, "alpha0") && (!strings.Contains(txt, "alpha0") || !strings.Contains(txt, "omega0")) {
		t.Fail("the words around the embed are gone: %s", short(res.HTMLContent))
	}
	if strings.Contains(place, "PROSE3") && !strings.Contains(txt, prose("thd", 160)) {
		t.Fail("the prose next to the embed is gone")
	}
}

func init() {
	register(&Prop{ID: "C20", Level: "model_checking",
		Rule: "every embed element x attribute x address x pattern x place x pass, objects with markup inside, and pairs of embeds in one block, against a model of the pattern; non-trivial: a distinct page and pattern whose embeds were compared",
		Families: func(tier string) []Family {
			var fs []Family
			attrs := []string{"src", "data-src", "data", "title", "value"}
			tags := []string{"iframe", "embed", "object"}
			fs = append(fs, Family{Name: "attributes", N: size(len(tags), len(c20URLs), len(attrs), len(c20Pats), 4), Run: func(t *T, i uint64) {
				d := &dec{i}
				tag, u, a, p, pl := pick(d, tags), pick(d, c20URLs), pick(d, attrs), pick(d, c20Pats), d.n(4)
				c20Run(t, p, c20Places[pl], []*c20El{{tag: tag, attrs: [][2]string{{a, u}}, id: 1}}, 0)
			}})
			few := []string{"https://www.youtube.com/embed/1", "//player.vimeo.com/2", "http://ads.example/frame", "http://videos.example/2"}
			fs = append(fs, Family{Name: "places", N: size(len(tags), len(few), len(c20Pats), len(c20Places), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				tag, u, p, pl, fr := pick(d, tags), pick(d, few), pick(d, c20Pats), pick(d, c20Places), d.n(3)
				c20Run(t, p, pl, []*c20El{{tag: tag, attrs: [][2]string{{"src", u}}, id: 1}}, fr)
			}})
			fs = append(fs, Family{Name: "several-attributes", N: size(len(tags), len(few), len(few), len(c20Pats), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				tag, u, v, p, pl := pick(d, tags), pick(d, few), pick(d, few), pick(d, c20Pats), d.n(3)
				c20Run(t, p, c20Places[pl], []*c20El{{tag: tag, attrs: [][2]string{{"width", "560"}, {"data-x", u}, {"src", v}, {"allowfullscreen", ""}}, id: 1}}, 0)
			}})
			inner := []struct {
				kids string
				in   func() []*c20El
			}{
				{"", nil}, {`<param name="movie" value="https://www.youtube.com/v/1"></param>`, nil}, {`<param name="movie" value="http://ads.example/m"></param>`, nil}, {`<a href="http://videos.example/9">x</a>`, nil}, {`see //www.youtube.com/z`, nil},
				{"", func() []*c20El {
					return []*c20El{{tag: "embed", attrs: [][2]string{{"src", "https://www.youtube.com/v/2"}}, id: 2}}
				}},
				{"", func() []*c20El {
					return []*c20El{{tag: "embed", attrs: [][2]string{{"src", "http://ads.example/v/2"}}, id: 2}}
				}},
				{`<param name="movie" value="//player.vimeo.com/1"></param>`, func() []*c20El {
					return []*c20El{{tag: "embed", attrs: [][2]string{{"src", "http://ads.example/v/2"}}, id: 2}, {tag: "iframe", attrs: [][2]string{{"src", "http://videos.example/v/2"}}, id: 3}}
				}},
				{"", func() []*c20El {
					return []*c20El{{tag: "object", attrs: [][2]string{{"data", "http://ads.example/v/2"}}, kids: `<param value="https://archive.org/x"></param>`, id: 2}}
				}},
			}
			fs = append(fs, Family{Name: "objects", N: size(len(inner), len(few)+1, len(c20Pats), len(c20Places), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				in := pick(d, inner)
				u, p, pl, fr := d.n(len(few)+1), pick(d, c20Pats), pick(d, c20Places), d.n(2)
				e := &c20El{tag: "object", kids: in.kids, id: 1}
				if u > 0 {
					e.attrs = [][2]string{{"data", few[u-1]}}
				}
				if in.in != nil {
					e.inner = in.in()
				}
				c20Run(t, p, pl, []*c20El{e}, fr)
			}})
			one := func(k, id int) *c20El {
				return &c20El{tag: tags[k%3], attrs: [][2]string{{"src", few[k/3]}}, id: id}
			}
			fs = append(fs, Family{Name: "pairs", N: size(12, 12, len(c20Pats), len(c20Places), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, p, pl, fr := d.n(12), d.n(12), pick(d, c20Pats), pick(d, c20Places), d.n(2)
				c20Run(t, p, pl, []*c20El{one(a, 1), one(b, 2)}, fr)
			}})
			fs = append(fs, Family{Name: "passes", N: size(12, len(c20Pats), len(c20Places), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, p, pl, fr := d.n(12), pick(d, c20Pats), pick(d, c20Places), 3+d.n(3)
				c20Run(t, p, pl, []*c20El{one(a, 1), one(11-a, 2)}, fr)
			}})
			return fs
		},
	})
}
