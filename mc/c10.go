package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

// C10: precedence of the metadata.

// refDecode decodes character references once: the five XML names and the
// numeric ones.
func refDecode(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '&' {
			if j := strings.IndexByte(s[i:], ';'); j > 1 {
				name := s[i+1 : i+j]
				out := ""
				switch name {
				case "lt":
					out = "<"
				case "gt":
					out = ">"
				case "amp":
					out = "&"
				case "quot":
					out = "\""
				case "apos":
					out = "'"
				default:
					if name[0] == '#' && len(name) > 1 {
						base, digits := 10, name[1:]
						if name[1] == 'x' || name[1] == 'X' {
							base, digits = 16, name[2:]
						}
						if n, err := strconv.ParseUint(digits, base, 32); err == nil && n > 0 && n <= 0x10ffff && (n < 0xd800 || n > 0xdfff) {
							out = string(rune(n))
						}
					}
				}
				if out != "" {
					b.WriteString(out)
					i += j + 1
					continue
				}
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

type c10Source struct {
	field, key string
	rank       int
	spell      []string // attribute spellings of the meta element
}

var c10Fields = []string{"title", "byline", "excerpt", "site", "time"}

var c10Sources = func() []c10Source {
	var out []c10Source
	add := func(field string, rank int, key string, spell ...string) {
		out = append(out, c10Source{field, key, rank, spell})
	}
	both := func(p, k string) []string {
		up := strings.ToUpper(p[:1]) + p[1:]
		return []string{
			fmt.Sprintf(`property="%s:%s"`, p, k), fmt.Sprintf(`name="%s.%s"`, p, k), fmt.Sprintf(`name="%s:%s"`, up, strings.ToUpper(k)), fmt.Sprintf(`property="%s : %s"`, strings.ToUpper(p), k), fmt.Sprintf(`name=" %s . %s "`, p, k), fmt.Sprintf(`itemprop="x" name="%s:%s"`, p, k), fmt.Sprintf(`property=" %s:%s "`, p, strings.ToUpper(k)),
		}
	}
	nameOnly := func(k string) []string {
		return []string{fmt.Sprintf(`name="%s"`, k), fmt.Sprintf(`name="%s"`, strings.ToUpper(k)), fmt.Sprintf(`name=" %s "`, k), fmt.Sprintf(`property="none" name="%s"`, k)}
	}
	weibo := func(k, f string) []string {
		return []string{fmt.Sprintf(`name="weibo:%s:%s"`, k, f), fmt.Sprintf(`name="weibo:%s.%s"`, k, f), fmt.Sprintf(`name="Weibo:%s:%s"`, strings.ToUpper(k), f), fmt.Sprintf(`name=" weibo:%s : %s "`, k, f)}
	}
	for _, f := range []struct{ field, k string }{{"title", "title"}, {"excerpt", "description"}} {
		add(f.field, 1, "dc:"+f.k, both("dc", f.k)...)
		add(f.field, 2, "dcterm:"+f.k, both("dcterm", f.k)...)
		add(f.field, 3, "og:"+f.k, both("og", f.k)...)
		add(f.field, 4, "weibo:article:"+f.k, weibo("article", f.k)...)
		add(f.field, 5, "weibo:webpage:"+f.k, weibo("webpage", f.k)...)
		add(f.field, 6, f.k, nameOnly(f.k)...)
		add(f.field, 7, "twitter:"+f.k, both("twitter", f.k)...)
	}
	add("byline", 1, "dc:creator", both("dc", "creator")...)
	add("byline", 2, "dcterm:creator", both("dcterm", "creator")...)
	add("byline", 3, "author", nameOnly("author")...)
	add("site", 1, "og:site_name", both("og", "site_name")...)
	add("time", 1, "article:published_time", `property="article:published_time"`, `property="ARTICLE:Published_Time"`, `property=" article : published_time "`)
	return out
}()

// tags which are no source of any field
var c10Noise = []string{
	`<meta charset="utf-8"/>`, `<meta http-equiv="refresh" content="noise"/>`, `<meta name="keywords" content="noise"/>`, `<meta property="og:image" content="noise"/>`, `<meta name="og:titles" content="noise"/>`, `<meta name="xdc.title" content="noise"/>`, `<meta name="dc.title.alt" content="noise"/>`, `<meta name="title2" content="noise"/>`, `<meta property="title" content="noise"/>`, `<meta property="description" content="noise"/>`, `<meta name="og:title" content=""/>`, `<meta name="description" content="  "/>`, `<meta name="title"/>`, `<meta content="noise"/>`, `<meta name="published_time" content="noise"/>`, `<meta name="twitter:creator" content="noise"/>`, `<meta property="article:author" content="noise"/>`, `<meta name="weibo:title" content="noise"/>`, `<link rel="title" content="noise"/>`, `<meta property="twitter:site_name" content="noise"/>`, `<meta name="site_name" content="noise"/>`, `<meta property="author" content="noise"/>`,
}

type c10Tag struct {
	src    *c10Source
	markup string
	value  string // expected
}

var c10JSONKeys = map[string]string{"title": "name", "byline": "author", "excerpt": "description", "site": "publisher", "time": "datePublished"}

func c10JSON(vals map[string]string) string {
	o := map[string]any{"@context": "https://schema.org", "@type": "Article"}
	for f, v := range vals {
		if f == "byline" || f == "site" {
			o[c10JSONKeys[f]] = map[string]any{"name": v}
		} else {
			o[c10JSONKeys[f]] = v
		}
	}
	b, _ := json.Marshal(o)
	return strings.NewReplacer(`\u0026`, "&", `\u003c`, "<", `\u003e`, ">").Replace(`<script type="application/ld+json">` + string(b) + `</script>`)
}

const c10Title = "The plain document title of this page"

func c10Get(res *readability.Result, f string) string {
	switch f {
	case "title":
		return res.Title
	case "byline":
		return res.Byline
	case "excerpt":
		return res.Excerpt
	case "site":
		return res.SiteName
	}
	return res.PublishedTime
}

// c10Run builds the page, and compares all of the fields with the precedence
// model.
func c10Run(t *T, tags []c10Tag, extra string, jsonld map[string]string, place int, pageByline bool, opts ...readability.Option) {
	var meta strings.Builder
	for _, tg := range tags {
		meta.WriteString(tg.markup)
	}
	js := ""
	if len(jsonld) > 0 {
		js = c10JSON(jsonld)
	}
	head := "<title>" + c10Title + "</title>"
	body := "<div>"
	by := ""
	if pageByline {
		body += `<div class="byline">Page Author</div>`
		by = "Page Author"
	}
	body += "<p>" + prose("fst", 300) + "</p><p>" + prose("snd", 300) + "</p></div>"
	switch place {
	case 0:
		head += js + meta.String() + extra
	case 1:
		head = meta.String() + extra + head + js
	case 2:
		body = meta.String() + extra + body + js
	}
	src := page(head, body)
	t.Begin("%s", src)
	res := t.MustParse(src, docURI, opts...)
	if res == nil {
		return
	}
	best := map[string]*c10Tag{}
	for k := range tags {
		tg := &tags[k]
		if tg.src == nil {
			continue
		}
		if tg.value == "" {
			continue
		}
		if b := best[tg.src.field]; b == nil || tg.src.rank <= b.src.rank {
			best[tg.src.field] = tg
		}
	}
	def := map[string]string{"title": c10Title, "byline": by, "excerpt": prose("fst", 300), "site": "", "time": ""}
	sig := ""
	for _, f := range c10Fields {
		want := def[f]
		if v := strings.TrimSpace(jsonld[f]); v != "" {
			want = refDecode(v)
		} else if b := best[f]; b != nil {
			want = b.value
		}
		t.Trace()
		if got := c10Get(res, f); got != want {
			t.Fail("%s: got %q, want %q", f, got, want)
			return
		}
		sig += want + "|"
	}
	t.Outcome(sig)
	t.State(src)
}

func c10Meta(s *c10Source, spell int, raw string) c10Tag {
	sp := s.spell[spell%len(s.spell)]
	m := `<meta ` + sp + ` content="` + raw + `"/>`
	if spell%2 == 1 {
		m = `<meta content="` + raw + `" ` + sp + `/>`
	}
	return c10Tag{s, m, refDecode(strings.TrimSpace(refDecode(raw)))}
}

func init() {
	register(&Prop{ID: "C10", Level: "model_checking",
		Rule: "every subset of the ranked sources of each field, in three orders, places and seven spellings; every sequence of up to 2 (quick) or 3 (thorough) tags over all fields and look-alikes; every source x value; non-trivial: a distinct page whose fields were all compared with the precedence model",
		Families: func(tier string) []Family {
			var fs []Family
			byField := map[string][]*c10Source{}
			for k := range c10Sources {
				s := &c10Sources[k]
				byField[s.field] = append(byField[s.field], s)
			}
			for _, f := range c10Fields {
				f := f
				srcs := byField[f]
				fs = append(fs, Family{Name: "subsets-" + f, N: pow(2, len(srcs)+1) * size(7, 3, 3, 2), Run: func(t *T, i uint64) {
					d := &dec{i}
					sp, order, place, pb := d.n(7), d.n(3), d.n(3), d.b()
					mask := int(d.i)
					var tags []c10Tag
					js := map[string]string{}
					if mask&1 == 1 {
						js[f] = "Json value of " + f
					}
					for k, s := range srcs {
						if mask>>(k+1)&1 == 1 {
							tags = append(tags, c10Meta(s, sp+k*order, "Value of "+s.key))
						}
					}
					switch order {
					case 1:
						for a, b := 0, len(tags)-1; a < b; a, b = a+1, b-1 {
							tags[a], tags[b] = tags[b], tags[a]
						}
					case 2:
						if len(tags) > 1 {
							h := len(tags) / 2
							tags = append(append([]c10Tag{}, tags[h:]...), tags[:h]...)
						}
					}
					c10Run(t, tags, "", js, place, pb)
				}})
			}
			// sequences of tags over all fields
			var all []c10Tag
			for k := range c10Sources {
				s := &c10Sources[k]
				for sp := range s.spell {
					all = append(all, c10Meta(s, sp, fmt.Sprintf("V%d of %s", sp, s.key)))
				}
			}
			// keys which look like the ranked ones, but are no source of anything
			ranked := map[string]bool{}
			for _, s := range c10Sources {
				ranked[s.key] = true
			}
			for _, p := range []string{"", "article:", "dc:", "dcterm:", "og:", "twitter:", "weibo:article:", "weibo:webpage:"} {
				for _, k := range []string{"author", "creator", "description", "published_time", "title", "site_name"} {
					if ranked[p+k] || strings.Contains(p+k, "article:published_time") {
						continue
					}
					all = append(all, c10Tag{nil, `<meta property="` + p + k + `" content="noise"/>`, ""}, c10Tag{nil, `<meta name="` + p + k + `" content="noise"/>`, ""})
				}
			}
			for _, m := range c10Noise {
				all = append(all, c10Tag{nil, m, ""})
			}
			l := 2
			if tier == "thorough" {
				l = 3
			}
			fs = append(fs, Family{Name: "sequences", N: seqCount(len(all), 1, l) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				pb := d.b()
				var tags []c10Tag
				for _, k := range seqAt(d.i, len(all), 1, l) {
					tags = append(tags, all[k])
				}
				c10Run(t, tags, "", nil, 0, pb)
			}})
			// all fields at once: json-ld mask x highest and lowest tags
			fs = append(fs, Family{Name: "all-fields", N: size(32, 32, 32, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				place := d.n(3)
				jm, hm, lm := d.n(32), d.n(32), d.n(32)
				js := map[string]string{}
				var tags []c10Tag
				for k, f := range c10Fields {
					if jm>>k&1 == 1 {
						js[f] = " Json " + f + " "
					}
					ss := byField[f]
					if lm>>k&1 == 1 {
						tags = append(tags, c10Meta(ss[len(ss)-1], k, "Low "+f))
					}
					if hm>>k&1 == 1 && len(ss) > 1 {
						tags = append(tags, c10Meta(ss[0], k+1, "High "+f))
					}
				}
				c10Run(t, tags, c10Noise[jm%len(c10Noise)], js, place, true)
			}})
			// values
			vals := []string{"plain", "  padded  ", "\n\tx y\n", "a &amp; b", "a &amp;amp; b", "&lt;b&gt; x", "&amp;lt;i&amp;gt; y", "&#x41;&#66;C", "&amp;#x41;&amp;#66;", "&quot;q&quot;", "&amp;quot;r&amp;quot;", "it&#39;s", "it&amp;#39;s &amp;apos;", "caf\u00e9 \u6f22\u5b57", "&#128512; x", "&amp;#x1F600;", "a  b", "a &amp; b &amp;amp;amp; c", "100%", "a; b", "x &amp;nosuch; y", "&amp;#xZZ;", "'single'", "  ", "", "&", "a&b", "&#0;x", "&amp;#xD800;y"}
			fs = append(fs, Family{Name: "values", N: size(len(c10Sources), len(vals), 4, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				s := &c10Sources[d.n(len(c10Sources))]
				v := pick(d, vals)
				sp, place := d.n(4), d.n(3)
				if strings.Contains(v, "#0;") || strings.Contains(v, "D800") {
					// what a forbidden character reference becomes is not stated
					return
				}
				c10Run(t, []c10Tag{c10Meta(s, sp, v)}, "", nil, place, false)
			}})
			jvals := []string{"plain", "  padded  ", "a &amp; b", "&lt;b&gt;", "&#x41;", "q \"r\"", "caf\u00e9", "a\\b", "a/b", "&amp;amp;", "x: y", "  ", "a\tb", "it's", "[]", "&#39;", "null", "0"}
			fs = append(fs, Family{Name: "json-values", N: size(5, len(jvals), 3, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				f := pick(d, c10Fields)
				v := pick(d, jvals)
				place, low := d.n(3), d.b()
				var tags []c10Tag
				if low {
					ss := byField[f]
					tags = append(tags, c10Meta(ss[len(ss)-1], 0, "Low "+f))
				}
				c10Run(t, tags, "", map[string]string{f: v}, place, true)
			}})
			return fs
		},
	})
}
