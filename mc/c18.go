package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/net/html"
)

// C18: lazy and noscript images, against a model of the expected source.

type c18At struct{ k, v string }

const (
	c18Tiny = "data:image/gif;base64,R0lGODlhAQABAIAAAAAAAP///yH5BAEAAAAALAAAAAABAAEAAAIBRAA7"
	c18Svg  = "data:image/svg+xml;base64,PHN2ZyB4bWxucz0iaHR0cDovL3d3dy53My5vcmcvMjAwMC9zdmciLz4="
)

func c18B64(n int) string { return "data:image/png;base64," + strings.Repeat("A", n) }

var c18Ext = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)`)

// c18Attr renders attributes.
func c18Render(as []c18At) string {
	var b strings.Builder
	for _, a := range as {
		fmt.Fprintf(&b, ` %s="%s"`, a.k, strings.NewReplacer("&", "&amp;", `"`, "&quot;").Replace(a.v))
	}
	return b.String()
}

func c18Get(as []c18At, k string) string {
	for _, a := range as {
		if a.k == k {
			return a.v
		}
	}
	return ""
}

func c18Has(as []c18At, k string) bool {
	for _, a := range as {
		if a.k == k {
			return true
		}
	}
	return false
}

func c18Set(as []c18At, k, v string) []c18At {
	for i := range as {
		if as[i].k == k {
			as[i].v = v
			return as
		}
	}
	return append(as, c18At{k, v})
}

// c18Addressed: some attribute may hold the address of the image.
func c18Addressed(as []c18At) bool {
	for _, a := range as {
		switch a.k {
		case "src", "srcset", "data-src", "data-srcset":
			return true
		}
		if c18Ext.MatchString(a.v) {
			return true
		}
	}
	return false
}

// c18Kind tells what an attribute value holds: one address of an image file,
// a list with descriptors, or something else.
func c18Kind(v string) string {
	v = strings.ToLower(v) // JPG is as good as jpg
	list := false
	for _, e := range []string{".jpg", ".jpeg", ".png", ".webp"} {
		for i := 0; i < len(v); i++ {
			if strings.HasPrefix(v[i:], e) {
				rest := v[i+len(e):]
				tr := strings.TrimLeft(rest, " \t\n")
				if tr != rest && tr != "" && tr[0] >= '0' && tr[0] <= '9' {
					list = true
				}
			}
		}
	}
	if list {
		return "srcset"
	}
	if f := strings.Fields(v); len(f) == 1 {
		if loc := c18Ext.FindStringIndex(f[0]); loc != nil && loc[0] > 0 {
			return "src"
		}
	}
	return ""
}

// c18Lazy is the model: the source of an image once the lazy loading is undone.
func c18Lazy(as []c18At) []c18At {
	as = append([]c18At{}, as...)
	src := c18Get(as, "src")
	low := strings.ToLower(src)
	if strings.HasPrefix(low, "data:image/") && strings.Contains(low, ";base64,") {
		if strings.HasPrefix(src, "data:image/svg+xml;") {
			return as
		}
		other := false
		for _, a := range as {
			other = other || a.k != "src" && c18Ext.MatchString(a.v)
		}
		if payload := len(src) - strings.Index(low, "base64") - len("base64,"); other && payload < 133 {
			var rest []c18At
			for _, a := range as {
				if a.k != "src" {
					rest = append(rest, a)
				}
			}
			as = rest
		}
	}
	if s := c18Get(as, "srcset"); (c18Get(as, "src") != "" || s != "" && s != "null") && !strings.Contains(strings.ToLower(c18Get(as, "class")), "lazy") {
		return as
	}
	for _, a := range append([]c18At{}, as...) {
		if a.k == "src" || a.k == "srcset" || a.k == "alt" {
			continue
		}
		if k := c18Kind(a.v); k != "" {
			as = c18Set(as, k, a.v)
		}
	}
	return as
}

type c18Want struct {
	absent      bool
	src, srcset string
}

func c18Of(as []c18At) c18Want { return c18Want{src: c18Get(as, "src"), srcset: c18Get(as, "srcset")} }

// the pages: I is the markup with the images
var c18Places = []string{
	"<p>PROSE1</p><p>alpha0 I omega0</p><p>PROSE2</p>",
	"<p>PROSE1</p><figure>I<figcaption>alpha0 omega0</figcaption></figure><p>PROSE2</p>",
	"<p>PROSE1 I PROSE2</p><p>PROSE3</p>",
	"<p>PROSE1</p>I<p>PROSE2</p>",
	"I<p>PROSE1</p><p>PROSE2</p>",
	"<p>PROSE1</p><p>I</p><p>PROSE2</p>",
	"<p>PROSE1</p><a href=\"http://h.example/x\">I</a><p>PROSE2</p>",
	"<p>PROSE1</p><blockquote>I PROSE3</blockquote><p>PROSE2</p>",
	"<p>PROSE1</p><div><p>PROSE3</p>I</div><p>PROSE2</p>",
}

func c18Page(place, img string) string {
	return page("", "<div>"+strings.NewReplacer("PROSE1", prose("fst", 260), "PROSE2", prose("snd", 260), "PROSE3", prose("thd", 160), "I", img).Replace(place)+"</div>")
}

// c18Judge compares the images of the content with the expected ones, in order.
func c18Judge(t *T, src string, want []c18Want) {
	t.Begin("%s", src)
	res := t.MustParse(src, docURI)
	if res == nil {
		return
	}
	root := parseOut(res.HTMLContent)
	imgs := elems(root, "img")
	var exp []c18Want
	for _, w := range want {
		if !w.absent {
			exp = append(exp, w)
		}
	}
	t.Trace()
	t.State(src)
	t.Outcome(fmt.Sprint(exp))
	describe := func() string {
		var l []string
		for _, n := range imgs {
			s, _ := attrOf(n, "src")
			ss, _ := attrOf(n, "srcset")
			l = append(l, fmt.Sprintf("src=%q srcset=%q", s, ss))
		}
		return strings.Join(l, " | ")
	}
	if len(imgs) != len(exp) {
		t.Fail("%d images expected %+v, got %d: %s\n%s", len(exp), exp, len(imgs), describe(), short(res.HTMLContent))
		return
	}
	for k, n := range imgs {
		s, _ := attrOf(n, "src")
		ss, _ := attrOf(n, "srcset")
		if s != exp[k].src || squash(ss) != squash(exp[k].srcset) {
			t.Fail("image %d: got src=%q srcset=%q, want src=%q srcset=%q", k, s, ss, exp[k].src, exp[k].srcset)
			return
		}
	}
	if c := elems(root, "noscript"); len(c) > 0 {
		t.Fail("a noscript element is left")
	}
	for _, w := range []string{"alpha0", "omega0", "gamma0", "delta0", "fst0", "snd0", "nstext0"} {
		if n := strings.Count(res.TextContent, w); n != 1 && strings.Contains(src, w) && w != "nstext0" || n > 1 || w == "nstext0" && n > 0 {
			t.Fail("the word %s is in the text %d times", w, n)
		}
	}
	for _, w := range []string{"fst", "snd"} {
		if strings.Contains(res.TextContent, w+"0") && !strings.Contains(squash(res.TextContent), squash(prose(w, 260))) {
			t.Fail("the prose around the image is not complete")
		}
	}
	_ = html.ElementNode
}

var c18Srcs = [][]c18At{
	nil, {{"src", ""}}, {{"src", "http://h.example/proper.png"}}, {{"src", "http://h.example/image?id=1"}}, {{"src", c18Tiny}}, {{"src", c18Svg}}, {{"src", c18B64(132)}}, {{"src", c18B64(133)}}, {{"src", c18B64(400)}}, {{"src", "DATA:IMAGE/GIF;BASE64,R0lGOD"}},
}
var c18Srcsets = [][]c18At{nil, {{"srcset", "http://h.example/s1.jpg 1x, http://h.example/s2.jpg 2x"}}, {{"srcset", "http://h.example/s1"}}, {{"srcset", "null"}}, {{"srcset", "http://h.example/s1.jpg"}}}
var c18Lazies = [][]c18At{
	nil, {{"data-srcset", "http://h.example/list1 1x"}}, {{"data-src", ""}}, {{"data-src", "http://h.example/real.jpg"}}, {{"data-original", "http://h.example/real.png?w=10"}}, {{"data-srcset", "http://h.example/r1.jpg 1x, http://h.example/r2.jpg 2x"}}, {{"data-src", "http://h.example/noextension"}}, {{"data-lazy-src", " http://h.example/real.webp "}},
	{{"data-src", "http://h.example/real.jpeg"}, {"data-srcset", "http://h.example/r1.webp 320w"}}, {{"data-srcset", "http://h.example/r1.png 2.5x"}, {"data-hi", "http://h.example/real.jpg"}}, {{"data-caption", "a photo.jpg of mine"}}, {{"data-thing", "true"}}, {{"alt", "photo.jpg"}, {"data-src", "http://h.example/real.jpg"}}, {{"data-srcset", "http://h.example/r1.jpg\n  600w,\n http://h.example/r2.jpg 900w"}}, {{"alt", "http://h.example/alt.jpg"}}, {{"data-src", "real.gif"}},
}
var c18Classes = [][]c18At{nil, {{"class", "lazy"}}, {{"class", "big LazyLoaded img"}}, {{"class", "photo"}}}

func c18Abs(w c18Want) c18Want { return w }

func init() {
	register(&Prop{ID: "C18", Level: "model_checking",
		Rule: "every combination of source, srcset, lazy attributes, class, attribute order and place of an image, every noscript fallback, wrapper and figure, against a model of the expected addresses; non-trivial: a distinct page whose images were compared",
		Families: func(tier string) []Family {
			var fs []Family
			fs = append(fs, Family{Name: "lazy", N: size(len(c18Places), len(c18Srcs), len(c18Srcsets), len(c18Lazies), len(c18Classes), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				pl, a, b, c, cl, rev := pick(d, c18Places), pick(d, c18Srcs), pick(d, c18Srcsets), pick(d, c18Lazies), pick(d, c18Classes), d.b()
				as := append(append(append(append([]c18At{}, a...), b...), c...), cl...)
				if rev {
					for x, y := 0, len(as)-1; x < y; x, y = x+1, y-1 {
						as[x], as[y] = as[y], as[x]
					}
				}
				w := c18Want{absent: true}
				if c18Addressed(as) {
					w = c18Of(c18Lazy(as))
				}
				w.src, w.srcset = c18Resolve(w.src), c18ResolveSet(w.srcset)
				c18Judge(t, c18Page(pl, "<img"+c18Render(as)+"/>"), []c18Want{w})
			}})
			// names of lazy attributes x spellings of the address
			anames := []string{"data-src", "data-original", "data-lazy", "data-lazy-src", "data-url", "data-img", "data-image", "data-hi-res-src", "data-full", "data-fallback-src", "data-img-url", "lazy-src", "original", "file", "data-srcset", "data-lazy-srcset", "data-large-file", "data-old", "data-flickity-lazyload", "url"}
			exts := []string{".jpg", ".jpeg", ".png", ".webp", ".gif", ".JPG", ".Jpeg", ".jPg", ".PNG", ".WebP", ""}
			tails := []string{"", "?w=10", "#f", ";v=1", "/w=300", "!large", "&w=1", ":large", "@2x", ",w_100", "-600x400", ".html", " 1x", " 2w", "?x 2x", " , http://h.example/o.png 2x", " x"}
			heads := []string{"http://h.example/real", "http://h.example/a.b/c_d-e", "//h.example/x", "/abs/real", "rel/real"}
			asrc := [][]c18At{nil, {{"src", c18Tiny}}, {{"src", "http://h.example/proper.png"}, {"class", "lazy"}}, {{"src", "http://h.example/proper.png"}}}
			fs = append(fs, Family{Name: "addresses", N: size(len(anames), len(exts), len(tails), len(heads), len(asrc)), Run: func(t *T, i uint64) {
				d := &dec{i}
				name, ext, tail, head, as := pick(d, anames), pick(d, exts), pick(d, tails), pick(d, heads), pick(d, asrc)
				as = append(append([]c18At{}, as...), c18At{name, head + ext + tail})
				w := c18Want{absent: true}
				if c18Addressed(as) {
					w = c18Of(c18Lazy(as))
				}
				w.src, w.srcset = c18Resolve(w.src), c18ResolveSet(w.srcset)
				c18Judge(t, c18Page(c18Places[0], "<img"+c18Render(as)+"/>"), []c18Want{w})
			}})
			// every payload length around the limit
			fs = append(fs, Family{Name: "placeholder-length", N: size(300, 8, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, pre, lazy := d.n(300), d.n(8), d.b()
				src := []string{"data:image/png;base64,", "data:image/jpeg;base64,", "data:image/svg+xml;base64,", "data:image/webp;base64,", "data:image/gif;base64,", "data:image/avif;base64,", "data:image/x-icon;base64,", "data:image/svg;base64,"}[pre] + strings.Repeat("A", n)
				as := []c18At{{"src", src}}
				if lazy {
					as = append(as, c18At{"data-src", "http://h.example/real.jpg"})
				}
				w := c18Of(c18Lazy(as))
				c18Judge(t, c18Page(c18Places[0], "<img"+c18Render(as)+"/>"), []c18Want{w})
			}})
			// figures which hold the address themselves, with and without an image in them
			figs := []string{"", "<img src=\"http://h.example/own.png\"/>", "<img src=\"http://h.example/own.png\"/><img src=\"http://h.example/two.png\"/>", "<picture><img src=\"http://h.example/own.png\"/></picture>", "<a href=\"http://h.example/y\"><img src=\"http://h.example/own.png\"/></a>", "<picture data-k=\"1\"><source srcset=\"http://h.example/sr.webp 2x\"/></picture>", "<div><picture><source srcset=\"http://h.example/sr.webp 2x\"/></picture></div>"}
			fs = append(fs, Family{Name: "figures", N: size(len(figs), len(c18Lazies), len(c18Classes), 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				k := d.n(len(figs))
				lz, cl, cap := pick(d, c18Lazies), pick(d, c18Classes), d.n(3)
				as := append(append([]c18At{}, lz...), cl...)
				var want []c18Want
				switch k {
				case 0:
					for _, a := range as {
						if kd := c18Kind(a.v); kd != "" && a.k != "alt" && len(want) == 0 {
							// the first image found settles it: the figure holds one from then on
							w := c18Want{}
							if kd == "src" {
								w.src = c18Resolve(a.v)
							} else {
								w.srcset = c18ResolveSet(a.v)
							}
							want = append(want, w)
						}
					}
				case 2:
					want = []c18Want{{src: "http://h.example/own.png"}, {src: "http://h.example/two.png"}}
				case 5, 6: // a picture is there already: no image is made up
				default:
					want = []c18Want{{src: "http://h.example/own.png"}}
				}
				caps := []string{"", "<figcaption>alpha0 omega0</figcaption>", "<div><figcaption>alpha0 omega0</figcaption></div>"}[cap]
				if k == 0 && cap == 0 {
					caps = "<figcaption>alpha0</figcaption>"
				}
				c18Judge(t, page("", "<div><p>"+prose("fst", 260)+"</p><figure"+c18Render(as)+">"+figs[k]+caps+"</figure><p>"+prose("snd", 260)+"</p></div>"), want)
			}})
			// pictures and figures with addresses of their own
			owners := []string{"picture", "figure"}
			oin := []string{`<img src="http://h.example/own.png"/>`, `<source srcset="http://h.example/sr.webp 2x"/><img src="http://h.example/own.png"/>`}
			fs = append(fs, Family{Name: "owners", N: size(2, len(oin), len(c18Srcs), len(c18Srcsets), len(c18Lazies), len(c18Classes)), Run: func(t *T, i uint64) {
				d := &dec{i}
				tag, in, a, b, c, cl := pick(d, owners), pick(d, oin), pick(d, c18Srcs), pick(d, c18Srcsets), pick(d, c18Lazies), pick(d, c18Classes)
				as := append(append(append(append([]c18At{{"data-k", "1"}}, a...), b...), c...), cl...)
				src := c18Page(c18Places[0], "<"+tag+c18Render(as)+">"+in+"</"+tag+">")
				t.Begin("%s", src)
				res := t.MustParse(src, docURI)
				if res == nil {
					return
				}
				n := byAttr(parseOut(res.HTMLContent), "data-k", "1")
				if n == nil {
					t.Fail("the %s is gone: %s", tag, short(res.HTMLContent))
					return
				}
				want := c18Lazy(as)
				if tag == "figure" { // its image keeps the address
					want = as
					if l := c18Lazy(as); c18Has(as, "src") && !c18Has(l, "src") {
						return
					}
					if low := strings.ToLower(c18Get(as, "src")); strings.HasPrefix(low, "data:image/") && !strings.Contains(low, "svg") {
						return
					}
				}
				s, _ := attrOf(n, "src")
				ss, _ := attrOf(n, "srcset")
				w := c18Of(want)
				if s != c18Resolve(w.src) || squash(ss) != squash(c18ResolveSet(w.srcset)) {
					t.Fail("the %s has src=%q srcset=%q, want %+v", tag, s, ss, w)
				}
				img := elems(n, "img")
				if len(img) != 1 {
					t.Fail("%d images in the %s: %s", len(img), tag, short(res.HTMLContent))
				} else if v, _ := attrOf(img[0], "src"); v != "http://h.example/own.png" {
					t.Fail("the image has the address %q", v)
				}
				t.State(src)
				t.Outcome(fmt.Sprint(w))
			}})
			// noscript fallbacks: previous element x noscript content x gap x place
			type prev struct {
				markup string
				as     []c18At // nil: not a single image
				single bool
			}
			mkPrev := func(wrap int, as []c18At) prev {
				img := "<img" + c18Render(as) + "/>"
				switch wrap {
				case 0:
					return prev{img, as, true}
				case 1:
					return prev{"<span>" + img + "</span>", as, true}
				case 2:
					return prev{"<a href=\"http://h.example/z\"> " + img + " </a>", as, true}
				case 3:
					return prev{"<span><em>" + img + "</em></span>", as, true}
				case 4:
					return prev{"<span>gamma0 " + img + "</span>", as, false}
				case 5:
					return prev{"<em>delta0</em>", nil, false}
				}
				return prev{"", nil, false}
			}
			prevAs := [][]c18At{
				{{"src", c18Tiny}}, {{"src", "http://h.example/ph.png"}}, {{"src", "http://h.example/ph.gif"}, {"class", "lazy"}}, {{"data-src", "http://h.example/real.jpg"}, {"src", c18Tiny}, {"class", "lazy"}}, {{"class", "lazy"}, {"data-src", "http://h.example/lazy.jpg"}}, {{"src", "http://h.example/real.jpg"}}, {{"srcset", "http://h.example/q.jpg 1x"}, {"src", "http://h.example/ph.png"}}, {{"alt", "x"}}, {{"src", ""}, {"data-src", "http://h.example/lazy.jpg"}}, {{"src", "http://h.example/ph.png"}, {"data-src", "http://h.example/lazy.jpg"}, {"class", "lazyload"}}, {{"data-src", "http://h.example/lazy.jpg"}, {"src", "http://h.example/ph.png"}, {"class", "lazyload"}},
			}
			type ns struct {
				before, after string
				as            []c18At
				single        bool
			}
			newAs := [][]c18At{{{"src", "http://h.example/real.jpg"}}, {{"src", "http://h.example/real.jpg"}, {"class", "lazy"}}, {{"srcset", "http://h.example/n1.jpg 1x"}, {"src", "http://h.example/real"}}, {{"class", "lazy"}, {"data-src", "http://h.example/real.jpg"}}}
			wraps := []ns{{"", "", nil, true}, {" ", "\n", nil, true}, {"<span>", "</span>", nil, true}, {"<a href=\"http://h.example/w\">", "</a>", nil, true}, {"<span><em>", "</em></span>", nil, true}, {"nstext0 ", "", nil, false}, {"<span>", " nstext0</span>", nil, false}, {"", "<img src=\"http://h.example/second.png\"/>", nil, false}, {"<!-- c -->", "", nil, true}}
			gaps := []string{"", " ", "\n\n", "<!-- gap -->", " gap0 "}
			places := c18Places[:7]
			fs = append(fs, Family{Name: "noscript", N: size(len(prevAs), 7, len(newAs), len(wraps), len(gaps), len(places)), Run: func(t *T, i uint64) {
				d := &dec{i}
				pa := pick(d, prevAs)
				wr := d.n(7)
				na, w, g, pl := pick(d, newAs), pick(d, wraps), pick(d, gaps), pick(d, places)
				p := mkPrev(wr, pa)
				alone := strings.Contains(pl, "</p>I<p>") || strings.HasPrefix(pl, "I") || strings.Contains(pl, ">I</")
				if alone && (wr == 4 || wr == 5 || wr == 6 || g == " gap0 ") {
					return // the words of the wrapper are alone in a block then
				}
				var want []c18Want
				if p.as != nil && !c18Addressed(p.as) {
					// an image without any address is dropped first; what is left of the wrapper is no image
					p.as, p.single = nil, false
					if strings.HasPrefix(pl, "<p>PROSE1</p><p>I</p>") || alone {
						return
					}
				}
				if p.single && w.single {
					merged := append([]c18At{}, na...)
					for _, a := range p.as {
						if a.v == "" || !(a.k == "src" || a.k == "srcset" || c18Ext.MatchString(a.v)) || c18Get(merged, a.k) == a.v {
							continue
						}
						k := a.k
						if c18Has(merged, k) {
							k = "data-old-" + k
						}
						merged = c18Set(merged, k, a.v)
					}
					// what was replaced is kept aside and does not count
					var m2 []c18At
					for _, a := range merged {
						if !strings.HasPrefix(a.k, "data-old-") {
							m2 = append(m2, a)
						}
					}
					// but it lets a tiny placeholder in the fallback itself go: none of the fallbacks here is one
					want = []c18Want{c18Of(c18Lazy(m2))}
				} else if p.as != nil {
					want = []c18Want{c18Of(c18Lazy(p.as))}
				}
				for k := range want {
					want[k].src, want[k].srcset = c18Resolve(want[k].src), c18ResolveSet(want[k].srcset)
				}
				c18Judge(t, c18Page(pl, p.markup+g+"<noscript>"+w.before+"<img"+c18Render(na)+"/>"+w.after+"</noscript>"), want)
			}})
			// several images of a page, each with its own scheme
			var schemes []struct {
				markup string
				want   c18Want
			}
			add := func(m string, w c18Want) {
				schemes = append(schemes, struct {
					markup string
					want   c18Want
				}{m, w})
			}
			add(`<img src="http://h.example/Np.png"/>`, c18Want{src: "http://h.example/Np.png"})
			add(`<img data-src="http://h.example/Nl.jpg"/>`, c18Want{src: "http://h.example/Nl.jpg"})
			add(`<img src="`+c18Tiny+`" data-src="http://h.example/Nt.jpg"/>`, c18Want{src: "http://h.example/Nt.jpg"})
			add(`<img src="`+c18Tiny+`"/><noscript><img src="http://h.example/Nn.jpg"/></noscript>`, c18Want{src: "http://h.example/Nn.jpg"})
			add(`<noscript><img src="http://h.example/No.jpg"/></noscript>`, c18Want{absent: true})
			add(`<img alt="none"/>`, c18Want{absent: true})
			add(`<span><img class="lazy" src="http://h.example/Ng.gif" data-srcset="http://h.example/Nr.webp 2x"/></span>`, c18Want{src: "http://h.example/Ng.gif", srcset: "http://h.example/Nr.webp 2x"})
			add(`<em>Nword</em>`, c18Want{absent: true})
			L := 3
			if tier == "thorough" {
				L = 5
			}
			fs = append(fs, Family{Name: "several", N: seqCount(len(schemes), 2, L) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				sep := d.b()
				var b strings.Builder
				var want []c18Want
				seq := seqAt(d.i, len(schemes), 2, L)
				for j, k := range seq {
					nm := fmt.Sprint("n", j)
					// a fallback right after an image of its own takes its place
					if k == 4 && j > 0 && !sep && len(want) > 0 && (seq[j-1] == 0 || seq[j-1] == 1 || seq[j-1] == 2 || seq[j-1] == 6) {
						want[len(want)-1] = c18Want{src: "http://h.example/" + nm + "o.jpg"}
						if seq[j-1] == 6 {
							want[len(want)-1].srcset = "" // the lazy list stays an attribute of the fallback
						}
					} else if k == 4 && j > 0 && !sep && (seq[j-1] == 3 || seq[j-1] == 4 || seq[j-1] == 5) {
						return // fallback after fallback: not stated
					} else {
						w := schemes[k].want
						w.src, w.srcset = strings.ReplaceAll(w.src, "N", nm), strings.ReplaceAll(w.srcset, "N", nm)
						want = append(want, w)
					}
					m := strings.ReplaceAll(schemes[k].markup, "N", nm)
					if k == 2 || k == 3 { // the base64 text is not to be touched
						m = strings.NewReplacer("/N", "/"+nm).Replace(schemes[k].markup)
					}
					b.WriteString(m)
					if sep {
						fmt.Fprintf(&b, "<b>sep%d</b>", j)
					}
				}
				c18Judge(t, c18Page(c18Places[0], b.String()), want)
			}})
			return fs
		},
	})
}

// addresses of the content are made absolute (C09); those here already are,
// but for the odd ones.
func c18Resolve(s string) string {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "DATA:") {
		return "data:" + s[len("DATA:"):] // the scheme of an address has no case
	}
	if s == "" || strings.HasPrefix(s, "data:") || strings.HasPrefix(s, "http:") {
		return s
	}
	if strings.HasPrefix(s, "//") {
		return "http:" + s
	}
	if strings.HasPrefix(s, "/") {
		return "http://host.example" + s
	}
	return "http://host.example/dir/" + s
}

func c18ResolveSet(s string) string {
	if strings.HasPrefix(s, "//") {
		return "http:" + s
	}
	if strings.HasPrefix(s, "/") {
		return "http://host.example" + s
	}
	if s == "" || strings.HasPrefix(strings.TrimSpace(s), "http:") {
		return s
	}
	return "http://host.example/dir/" + s
}
