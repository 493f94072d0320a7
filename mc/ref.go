package main

import (
	"math"
	"regexp"
	"sort"
	"strings"
)

// A reference model of the extraction: the published algorithm (Readability.js)
// written down a second time, over plain trees with no sibling links and no
// shared state. It knows nothing about how the library does it.

type rn struct {
	tag   string // "" for a text
	attrs [][2]string
	text  string
	kids  []*rn
	up    *rn

	scored bool
	score  float64
	data   bool // a data table
}

var rVoid = map[string]bool{"area": true, "base": true, "br": true, "col": true, "command": true, "embed": true, "hr": true, "img": true, "input": true, "link": true, "meta": true, "param": true, "source": true, "wbr": true}

// rParse reads well-formed markup: every element closed, values quoted.
func rParse(s string) *rn {
	root := &rn{tag: "#document"}
	cur := root
	put := func(n *rn) {
		n.up = cur
		cur.kids = append(cur.kids, n)
	}
	for s != "" {
		lt := strings.IndexByte(s, '<')
		if lt != 0 {
			txt := s
			if lt > 0 {
				txt, s = s[:lt], s[lt:]
			} else {
				s = ""
			}
			put(&rn{text: rDecode(txt)})
			continue
		}
		gt := strings.IndexByte(s, '>')
		tag := s[1:gt]
		s = s[gt+1:]
		if strings.HasPrefix(tag, "/") {
			if cur.tag != tag[1:] {
				panic("reference: malformed markup at </" + tag[1:] + ">, open: " + cur.tag)
			}
			cur = cur.up
			continue
		}
		self := strings.HasSuffix(tag, "/")
		tag = strings.TrimSuffix(tag, "/")
		n := &rn{}
		n.tag, tag, _ = strings.Cut(tag, " ")
		for tag = strings.TrimSpace(tag); tag != ""; tag = strings.TrimSpace(tag) {
			eq := strings.Index(tag, "=\"")
			end := strings.IndexByte(tag[eq+2:], '"') + eq + 2
			n.attrs = append(n.attrs, [2]string{tag[:eq], rDecode(tag[eq+2 : end])})
			tag = tag[end+1:]
		}
		put(n)
		if !self {
			cur = n
		}
	}
	if cur != root {
		panic("reference: not closed: " + cur.tag)
	}
	return root
}

var rDecoder = strings.NewReplacer("&lt;", "<", "&gt;", ">", "&amp;", "&", "&quot;", `"`, "&apos;", "'")

func rDecode(s string) string { return rDecoder.Replace(s) }

func (n *rn) write(b *strings.Builder) {
	for _, k := range n.kids {
		if k.tag == "" {
			b.WriteString(strings.NewReplacer("<", "&lt;", ">", "&gt;", "&", "&amp;").Replace(k.text))
			continue
		}
		b.WriteString("<" + k.tag)
		for _, a := range k.attrs {
			b.WriteString(" " + a[0] + `="` + strings.NewReplacer("<", "&lt;", ">", "&gt;", "&", "&amp;", `"`, "&quot;", "'", "&apos;").Replace(a[1]) + `"`)
		}
		if rVoid[k.tag] && len(k.kids) == 0 {
			b.WriteString("/>")
			continue
		}
		b.WriteString(">")
		k.write(b)
		b.WriteString("</" + k.tag + ">")
	}
}

func (n *rn) inner() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *rn) content() string {
	if n.tag == "" {
		return n.text
	}
	var b strings.Builder
	for _, k := range n.kids {
		b.WriteString(k.content())
	}
	return b.String()
}

func (n *rn) attr(name string) string {
	for _, a := range n.attrs {
		if a[0] == name {
			return a[1]
		}
	}
	return ""
}

func (n *rn) has(name string) bool {
	for _, a := range n.attrs {
		if a[0] == name {
			return true
		}
	}
	return false
}

func (n *rn) set(name, v string) {
	for i := range n.attrs {
		if n.attrs[i][0] == name {
			n.attrs[i][1] = v
			return
		}
	}
	n.attrs = append(n.attrs, [2]string{name, v})
}

func (n *rn) unset(name string) {
	var out [][2]string
	for _, a := range n.attrs {
		if a[0] != name {
			out = append(out, a)
		}
	}
	n.attrs = out
}

func (n *rn) index() int {
	for i, k := range n.up.kids {
		if k == n {
			return i
		}
	}
	return -1
}

func (n *rn) drop() {
	if n.up == nil {
		return
	}
	i := n.index()
	n.up.kids = append(append([]*rn{}, n.up.kids[:i]...), n.up.kids[i+1:]...)
	n.up = nil
}

func (n *rn) add(k *rn) {
	k.drop()
	k.up = n
	n.kids = append(n.kids, k)
}

// swap puts m in the place of n.
func (n *rn) swap(m *rn) {
	m.drop()
	up, i := n.up, n.index()
	up.kids[i] = m
	m.up = up
	n.up = nil
}

func (n *rn) elems() []*rn {
	var out []*rn
	for _, k := range n.kids {
		if k.tag != "" {
			out = append(out, k)
		}
	}
	return out
}

// all are the descendants with one of the tags, tag after tag.
func (n *rn) all(tags ...string) []*rn {
	var out []*rn
	for _, t := range tags {
		var rec func(*rn)
		rec = func(x *rn) {
			for _, k := range x.kids {
				if k.tag == t {
					out = append(out, k)
				}
				rec(k)
			}
		}
		rec(n)
	}
	return out
}

func (n *rn) next() *rn { // sibling
	if n.up == nil {
		return nil
	}
	if i := n.index(); i+1 < len(n.up.kids) {
		return n.up.kids[i+1]
	}
	return nil
}

// follow is the next element in document order; without its own descendants if over.
func (n *rn) follow(over bool) *rn {
	if !over {
		if es := n.elems(); len(es) > 0 {
			return es[0]
		}
	}
	for x := n; x != nil; x = x.up {
		for s := x.next(); s != nil; s = s.next() {
			if s.tag != "" {
				return s
			}
		}
	}
	return nil
}

func (n *rn) ancestors() []*rn {
	var out []*rn
	for x := n.up; x != nil; x = x.up {
		out = append(out, x)
	}
	return out
}

// within: an ancestor with the tag, at most depth+1 levels up (any if depth <= 0).
func (n *rn) within(tag string, depth int, ok func(*rn) bool) bool {
	for i, a := range n.ancestors() {
		if depth > 0 && i > depth {
			return false
		}
		if a.tag == tag && (ok == nil || ok(a)) {
			return true
		}
	}
	return false
}

func rSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

var (
	rScored   = rSet("section h2 h3 h4 h5 h6 p td pre")
	rRoles    = rSet("menu menubar complementary navigation alert alertdialog dialog")
	rBlocks   = rSet("blockquote dl div img ol p pre table ul")
	rKeepTag  = rSet("div article section p")
	rPhrasing = rSet("abbr audio b bdo br button cite code data datalist dfn em embed i img input kbd label mark math meter noscript object output progress q ruby samp script select small span strong sub sup textarea time var wbr")
	rStyling  = strings.Fields("align background bgcolor border cellpadding cellspacing frame hspace rules style valign vspace")
	rSized    = rSet("table th td hr pre")

	rUnlikely = strings.Fields("-ad- ai2html banner breadcrumbs combx comment community cover-wrap disqus extra footer gdpr header legends menu related remark replies rss shoutbox sidebar skyscraper social sponsor supplemental ad-break agegate pagination pager popup yom-remote")
	rMaybe    = strings.Fields("and article body column content main shadow")
	rPositive = strings.Fields("article body content entry hentry h-entry main page pagination post text blog story")
	rNegative = strings.Fields("-ad- hidden banner combx comment com- contact foot footer footnote gdpr masthead media meta outbrain promo related scroll share shoutbox sidebar skyscraper sponsor shopping tags tool widget")
	rBylines  = strings.Fields("byline author dateline writtenby p-author")

	rVideos = regexp.MustCompile(`(?i)//(www\.)?((dailymotion|youtube|youtube-nocookie|player\.vimeo|v\.qq)\.com|(archive|upload\.wikimedia)\.org|player\.twitch\.tv)`)
	rShare  = regexp.MustCompile(`(?i)(\b|_)(share|sharedaddy)(\b|_)`)
)

func rAny(s string, words []string) bool {
	s = strings.ToLower(s)
	for _, w := range words {
		if strings.Contains(s, w) {
			return true
		}
	}
	return false
}

func rIsNegative(s string) bool {
	if rAny(s, rNegative) {
		return true
	}
	s = strings.ToLower(s)
	return s == "hid" || strings.HasSuffix(s, " hid") || strings.Contains(s, " hid ") || strings.HasPrefix(s, "hid ")
}

func rBlank(c rune) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }

// rInner is the text of a node, trimmed, runs of two or more blanks being one.
func rInner(n *rn) string {
	s := []rune(strings.TrimSpace(n.content()))
	var out []rune
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && rBlank(s[j]) {
			j++
		}
		switch {
		case j-i >= 2:
			out = append(out, ' ')
			i = j
		default:
			out = append(out, s[i])
			i++
		}
	}
	return string(out)
}

func rLen(n *rn) int { return len([]rune(rInner(n))) }

type rOpts struct {
	top       int // candidates
	threshold int
	keep      []string // classes
	keepAll   bool
	title     string
	byline    bool // known already
}

type rRun struct {
	o                        rOpts
	strip, weight, condition bool
	byline                   string
	passes                   int
	bodySeen                 bool
}

func (r *rRun) weightOf(n *rn) float64 {
	if !r.weight {
		return 0
	}
	w := 0.0
	for _, a := range []string{n.attr("class"), n.attr("id")} {
		if a == "" {
			continue
		}
		if rIsNegative(a) {
			w -= 25
		}
		if rAny(a, rPositive) {
			w += 25
		}
	}
	return w
}

func rStyle(n *rn, prop string) string {
	for _, d := range strings.Split(n.attr("style"), ";") {
		name, v, ok := strings.Cut(d, ":")
		if ok && strings.ToLower(strings.TrimSpace(name)) == prop {
			v, _, _ = strings.Cut(strings.ToLower(v), "!important")
			return strings.TrimSpace(v)
		}
	}
	return ""
}

func rVisible(n *rn) bool {
	return rStyle(n, "display") != "none" && rStyle(n, "visibility") != "hidden" && !n.has("hidden") &&
		(n.attr("aria-hidden") != "true" || strings.Contains(n.attr("class"), "fallback-image"))
}

func rPhrase(n *rn) bool {
	if n.tag == "" || rPhrasing[n.tag] {
		return true
	}
	if n.tag != "a" && n.tag != "del" && n.tag != "ins" {
		return false
	}
	for _, k := range n.kids {
		if !rPhrase(k) {
			return false
		}
	}
	return true
}

func rSpace(n *rn) bool {
	return n.tag == "br" || n.tag == "" && strings.TrimSpace(n.text) == ""
}

func rHasBlock(n *rn) bool {
	for _, k := range n.kids {
		if rBlocks[k.tag] || rHasBlock(k) {
			return true
		}
	}
	return false
}

// rEmpty: no text, and no elements but line breaks and rules.
func rEmpty(n *rn) bool {
	for _, e := range n.elems() {
		if e.tag != "br" && e.tag != "hr" {
			return false
		}
	}
	return strings.TrimSpace(n.content()) == ""
}

// rSingle: one element with the tag and no text beside it.
func rSingle(n *rn, tag string) *rn {
	es := n.elems()
	if len(es) != 1 || es[0].tag != tag {
		return nil
	}
	for _, k := range n.kids {
		if k.tag == "" && strings.TrimSpace(k.text) != "" {
			return nil
		}
	}
	return es[0]
}

func rLinks(n *rn) float64 {
	total := rLen(n)
	if total == 0 {
		return 0
	}
	sum := 0.0
	for _, a := range n.all("a") {
		c := 1.0
		if h := a.attr("href"); len(h) > 1 && h[0] == '#' {
			c = 0.3
		}
		sum += float64(rLen(a)) * c
	}
	return sum / float64(total)
}

func rSkipBlank(n *rn) *rn {
	for n != nil && n.tag == "" && strings.TrimSpace(n.text) == "" {
		n = n.next()
	}
	return n
}

// prepare: no scripts and styles, chains of line breaks are paragraphs.
func rPrepare(doc, body *rn) {
	for _, n := range doc.all("script", "noscript", "style") {
		n.drop()
	}
	for _, br := range body.all("br") {
		if br.up == nil {
			continue
		}
		chain := false
		for n := rSkipBlank(br.next()); n != nil && n.tag == "br"; {
			chain = true
			after := n.next()
			n.drop()
			n = rSkipBlank(after)
		}
		if !chain {
			continue
		}
		p := &rn{tag: "p"}
		br.swap(p)
		for n := p.next(); n != nil; {
			if n.tag == "br" {
				if m := rSkipBlank(n.next()); m != nil && m.tag == "br" {
					break
				}
			}
			if !rPhrase(n) {
				break
			}
			after := n.next()
			p.add(n)
			n = after
		}
		for len(p.kids) > 0 && rSpace(p.kids[len(p.kids)-1]) {
			p.kids[len(p.kids)-1].drop()
		}
		if p.up.tag == "p" {
			p.up.tag = "div"
		}
	}
	for _, n := range doc.all("font") {
		n.tag = "span"
	}
}

func (r *rRun) isByline(n *rn) bool {
	if r.o.byline || r.byline != "" {
		return false
	}
	if n.attr("rel") != "author" && !strings.Contains(n.attr("itemprop"), "author") && !rAny(n.attr("class")+" "+n.attr("id"), rBylines) {
		return false
	}
	s := strings.TrimSpace(n.content())
	if s == "" || len([]rune(s)) >= 100 {
		return false
	}
	r.byline = s
	return true
}

func rTokens(s string) []string {
	return strings.FieldsFunc(strings.ToLower(s), func(c rune) bool {
		return !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z')
	})
}

// rSimilar: the share of the second text's words which the first one has.
func rSimilar(a, b string) float64 {
	in := map[string]bool{}
	for _, t := range rTokens(a) {
		in[t] = true
	}
	var fresh []string
	for _, t := range rTokens(b) {
		if !in[t] {
			fresh = append(fresh, t)
		}
	}
	if len(in) == 0 || len(rTokens(b)) == 0 {
		return 0
	}
	return 1 - float64(len(strings.Join(fresh, " ")))/float64(len(strings.Join(rTokens(b), " ")))
}

func (r *rRun) initial(n *rn) {
	n.scored = true
	n.score = 0
	switch n.tag {
	case "div":
		n.score = 5
	case "pre", "td", "blockquote":
		n.score = 3
	case "address", "ol", "ul", "dl", "dd", "dt", "li", "form":
		n.score = -3
	case "h1", "h2", "h3", "h4", "h5", "h6", "th":
		n.score = -5
	}
	n.score += r.weightOf(n)
}

// pass is one attempt. It returns the content and the nodes which tell the direction.
func (r *rRun) pass(doc, body *rn) (*rn, []*rn) {
	r.passes++
	var score []*rn
	n := doc.elems()[0]
	titleSeen := false
	gone := func() { // n and all in it
		m := n.follow(true)
		n.drop()
		n = m
	}
	for n != nil {
		match := n.attr("class") + " " + n.attr("id")
		if !rVisible(n) || n.attr("aria-modal") == "true" && n.attr("role") == "dialog" {
			gone()
			continue
		}
		if r.isByline(n) {
			gone()
			continue
		}
		if !titleSeen && (n.tag == "h1" || n.tag == "h2") && rSimilar(r.o.title, strings.TrimSpace(n.content())) > 0.75 {
			titleSeen = true
			gone()
			continue
		}
		if r.strip && rAny(match, rUnlikely) && !rAny(match, rMaybe) && !n.within("table", 3, nil) && !n.within("code", 3, nil) && n.tag != "body" && n.tag != "a" {
			gone()
			continue
		}
		if rRoles[n.attr("role")] {
			gone()
			continue
		}
		switch n.tag {
		case "div", "section", "header", "h1", "h2", "h3", "h4", "h5", "h6":
			if rEmpty(n) {
				gone()
				continue
			}
		}
		if rScored[n.tag] {
			score = append(score, n)
		}
		if n.tag == "div" {
			var p *rn
			for _, k := range append([]*rn{}, n.kids...) {
				switch {
				case rPhrase(k) && p != nil:
					p.add(k)
				case rPhrase(k) && !rSpace(k):
					p = &rn{tag: "p"}
					k.swap(p)
					p.add(k)
				case !rPhrase(k) && p != nil:
					for len(p.kids) > 0 && rSpace(p.kids[len(p.kids)-1]) {
						p.kids[len(p.kids)-1].drop()
					}
					p = nil
				}
			}
			only := rSingle(n, "p")
			concealed := only != nil && (!rVisible(only) || only.attr("aria-modal") == "true" && only.attr("role") == "dialog" || rRoles[only.attr("role")])
			if only != nil && rLinks(n) < 0.25 && !concealed {
				n.swap(only)
				n = only
				if r.isByline(n) {
					gone()
					continue
				}
				score = append(score, n)
			} else if !rHasBlock(n) {
				n.tag = "p"
				score = append(score, n)
			}
		}
		n = n.follow(false)
	}

	var candidates []*rn
	for _, e := range score {
		if e.up == nil || rLen(e) < 25 {
			continue
		}
		text := rInner(e)
		s := 2.0 // itself, and the piece before the first comma
		for _, c := range text {
			if strings.ContainsRune(",،﹐︐︑⹁⸴⸲，", c) {
				s++
			}
		}
		s += math.Min(math.Floor(float64(rLen(e))/100), 3)
		for level, a := range e.ancestors() {
			if level == 5 {
				break
			}
			if a.tag != "body" && !a.within("body", 0, nil) {
				continue
			}
			if !a.scored {
				r.initial(a)
				// The body outlives the attempts, and is a candidate of one of them only.
				if a.tag != "body" || !r.bodySeen {
					candidates = append(candidates, a)
				}
				if a.tag == "body" {
					r.bodySeen = true
				}
			}
			switch level {
			case 0:
				a.score += s
			case 1:
				a.score += s / 2
			default:
				a.score += s / float64(3*level)
			}
		}
	}
	for _, c := range candidates {
		c.score *= 1 - rLinks(c)
	}
	tops := append([]*rn{}, candidates...)
	sort.SliceStable(tops, func(i, j int) bool { return tops[i].score > tops[j].score })
	if len(tops) > r.o.top {
		tops = tops[:r.o.top]
	}
	var top *rn
	if len(tops) > 0 {
		top = tops[0]
	}
	made := false
	if top == nil || top.tag == "body" {
		top = &rn{tag: "div"}
		made = true
		for len(body.kids) > 0 {
			top.add(body.kids[0])
		}
		body.add(top)
		r.initial(top)
	} else {
		var lists [][]*rn
		for _, c := range tops[1:] {
			if c.score/top.score >= 0.75 {
				lists = append(lists, c.ancestors())
			}
		}
		if len(lists) >= 3 {
			for x := top.up; x.tag != "body"; x = x.up {
				n := 0
				for _, l := range lists {
					for _, a := range l {
						if a == x {
							n++
						}
					}
				}
				if n >= 3 {
					top = x
					break
				}
			}
		}
		if !top.scored {
			r.initial(top)
		}
		last := top.score
		least := last / 3
		for x := top.up; x.tag != "body"; x = x.up {
			if !x.scored {
				continue
			}
			if x.score < least {
				break
			}
			if x.score > last {
				top = x
				break
			}
			last = x.score
		}
		for top.up.tag != "body" && len(top.up.elems()) == 1 {
			top = top.up
		}
		if !top.scored {
			r.initial(top)
		}
	}

	content := &rn{tag: "div"}
	least := math.Max(10, top.score*0.2)
	parent := top.up
	dirs := append([]*rn{parent, top}, parent.ancestors()...)
	for _, s := range parent.elems() {
		take := s == top
		if !take {
			bonus := 0.0
			if s.attr("class") == top.attr("class") && top.attr("class") != "" {
				bonus = top.score * 0.2
			}
			if s.scored && s.score+bonus >= least {
				take = true
			} else if s.tag == "p" {
				d, l, text := rLinks(s), rLen(s), rInner(s)
				if l > 80 && d < 0.25 || l < 80 && d == 0 && (strings.Contains(text, ". ") || strings.HasSuffix(text, ".")) {
					take = true
				}
			}
		}
		if take {
			if !rKeepTag[s.tag] {
				s.tag = "div"
			}
			content.add(s)
		}
	}
	r.tidy(content)
	if made {
		top.set("id", "readability-page-1")
		top.set("class", "page")
	} else {
		div := &rn{tag: "div", attrs: [][2]string{{"id", "readability-page-1"}, {"class", "page"}}}
		for len(content.kids) > 0 {
			div.add(content.kids[0])
		}
		content.add(div)
	}
	return content, dirs
}

func rEmbedAllowed(n *rn) bool {
	for _, a := range n.attrs {
		if rVideos.MatchString(a[1]) {
			return true
		}
	}
	return n.tag == "object" && rVideos.MatchString(n.inner())
}

// tidy makes the content presentable.
func (r *rRun) tidy(c *rn) {
	var plain func(*rn)
	plain = func(n *rn) {
		if n.tag == "svg" {
			return
		}
		for _, a := range rStyling {
			n.unset(a)
		}
		if rSized[n.tag] {
			n.unset("width")
			n.unset("height")
		}
		for _, k := range n.elems() {
			plain(k)
		}
	}
	plain(c)
	for _, t := range c.all("table") {
		t.data = rDataTable(t)
	}
	clean := func(tags ...string) {
		for _, tag := range tags {
			for _, n := range rBack(c.all(tag)) {
				if (tag == "object" || tag == "embed" || tag == "iframe") && rEmbedAllowed(n) {
					continue
				}
				n.drop()
			}
		}
	}
	r.fishy(c, "form")
	r.fishy(c, "fieldset")
	clean("object", "embed", "footer", "link", "aside")
	for _, e := range c.elems() {
		end := e.follow(true)
		for n := e.follow(false); n != nil && n != end; {
			if rShare.MatchString(n.attr("class")+" "+n.attr("id")) && len([]rune(n.content())) < 500 {
				m := n.follow(true)
				n.drop()
				n = m
			} else {
				n = n.follow(false)
			}
		}
	}
	clean("iframe", "input", "textarea", "select", "button")
	for _, h := range rBack(c.all("h1", "h2")) {
		if r.weightOf(h) < 0 {
			h.drop()
		}
	}
	r.fishy(c, "table")
	r.fishy(c, "ul")
	r.fishy(c, "div")
	for _, h := range c.all("h1") {
		h.tag = "h2"
	}
	for _, p := range rBack(c.all("p")) {
		if len(p.all("img", "embed", "object", "iframe")) == 0 && strings.TrimSpace(p.content()) == "" {
			p.drop()
		}
	}
	for _, br := range c.all("br") {
		if n := rSkipBlank(br.next()); n != nil && n.tag == "p" {
			br.drop()
		}
	}
	for _, t := range c.all("table") {
		in := t
		if b := rSingle(t, "tbody"); b != nil {
			in = b
		}
		row := rSingle(in, "tr")
		if row == nil {
			continue
		}
		cell := rSingle(row, "td")
		if cell == nil {
			continue
		}
		cell.tag = "p"
		for _, k := range cell.kids {
			if !rPhrase(k) {
				cell.tag = "div"
			}
		}
		t.swap(cell)
	}
}

func rBack(l []*rn) []*rn {
	out := make([]*rn, len(l))
	for i, n := range l {
		out[len(l)-1-i] = n
	}
	return out
}

func rDataTable(t *rn) bool {
	if t.attr("role") == "presentation" || t.attr("datatable") == "0" {
		return false
	}
	if t.attr("summary") != "" {
		return true
	}
	if c := t.all("caption"); len(c) > 0 && len(c[0].kids) > 0 {
		return true
	}
	if len(t.all("col", "colgroup", "tfoot", "thead", "th")) > 0 {
		return true
	}
	if len(t.all("table")) > 0 {
		return false
	}
	rows, cols := 0, 0
	for _, tr := range t.all("tr") {
		rows++
		cols = max(cols, len(tr.all("td")))
	}
	return rows >= 10 || cols > 4 || rows*cols > 10
}

// fishy removes the elements with the tag which look like anything but content.
func (r *rRun) fishy(c *rn, tag string) {
	if !r.condition {
		return
	}
	for _, n := range rBack(c.all(tag)) {
		if n.up != nil && r.isFishy(n, tag) {
			n.drop()
		}
	}
}

func (r *rRun) isFishy(n *rn, tag string) bool {
	isData := func(t *rn) bool { return t.data }
	length := rLen(n)
	list := tag == "ul"
	if !list {
		l := 0
		for _, x := range n.all("ul", "ol") {
			l += rLen(x)
		}
		list = length > 0 && float64(l)/float64(length) > 0.9
	}
	if tag == "table" && n.data || n.within("table", 0, isData) || n.within("code", 3, nil) {
		return false
	}
	w := r.weightOf(n)
	if w < 0 {
		return true
	}
	if strings.Count(rInner(n), ",") >= 10 {
		return false
	}
	p, img, li, input := len(n.all("p")), len(n.all("img")), len(n.all("li"))-100, len(n.all("input"))
	headings := 0.0
	if length > 0 {
		for _, h := range n.all("h1", "h2", "h3", "h4", "h5", "h6") {
			headings += float64(rLen(h))
		}
		headings /= float64(length)
	}
	embeds := 0
	for _, e := range n.all("object", "embed", "iframe") {
		if rEmbedAllowed(e) {
			return false
		}
		embeds++
	}
	links := rLinks(n)
	figure := n.within("figure", 3, nil)
	bad := img > 1 && 2*p < img && !figure ||
		!list && li > p ||
		input > p/3 ||
		!list && headings < 0.9 && length < 25 && (img == 0 || img > 2) && !figure ||
		!list && w < 25 && links > 0.2 ||
		w >= 25 && links > 0.5 ||
		embeds == 1 && length < 75 || embeds > 1
	if list && bad {
		for _, k := range n.elems() {
			if len(k.elems()) > 1 {
				return true
			}
		}
		if img == len(n.all("li")) {
			return false
		}
	}
	return bad
}

// finish: nested wrappers are simplified, classes go.
func (r *rRun) finish(c *rn) {
	for n := c; n != nil; {
		if n.up != nil && (n.tag == "div" || n.tag == "section") && !strings.HasPrefix(n.attr("id"), "readability") {
			if rEmpty(n) {
				m := n.follow(true)
				n.drop()
				n = m
				continue
			}
			k := rSingle(n, "div")
			if k == nil {
				k = rSingle(n, "section")
			}
			if k != nil {
				for _, a := range n.attrs {
					k.set(a[0], a[1])
				}
				n.swap(k)
				n = k
				continue
			}
		}
		n = n.follow(false)
	}
	if r.o.keepAll {
		return
	}
	var classes func(*rn)
	classes = func(n *rn) {
		var keep []string
		for _, w := range strings.Fields(n.attr("class")) {
			if w == "page" {
				keep = append(keep, w)
			}
			for _, k := range r.o.keep {
				if w == k {
					keep = append(keep, w)
				}
			}
		}
		if len(keep) > 0 {
			n.set("class", strings.Join(keep, " "))
		} else {
			n.unset("class")
		}
		for _, k := range n.elems() {
			classes(k)
		}
	}
	classes(c)
}

type rResult struct {
	html, text, byline, dir string
	passes                  int
}

// rExtract is the whole of it; nil if there is nothing to extract.
func rExtract(src string, o rOpts) *rResult {
	r := &rRun{o: o, strip: true, weight: true, condition: true}
	var best *rn
	var bestDirs []*rn
	bestLen := -1
	for {
		// every attempt starts from the page as it was
		doc := rParse(src)
		body := doc.all("body")[0]
		rPrepare(doc, body)
		c, dirs := r.pass(doc, body)
		l := rLen(c)
		if l > bestLen {
			best, bestLen, bestDirs = c, l, dirs
		}
		done := l >= o.threshold
		if done {
			best, bestDirs = c, dirs
		} else {
			switch {
			case r.strip:
				r.strip = false
			case r.weight:
				r.weight = false
			case r.condition:
				r.condition = false
			default:
				if bestLen == 0 {
					return nil
				}
				done = true
			}
		}
		if done {
			r.finish(best)
			res := &rResult{html: best.inner(), text: best.content(), byline: r.byline, passes: r.passes}
			for _, d := range bestDirs {
				if v := d.attr("dir"); v != "" {
					res.dir = v
					break
				}
			}
			return res
		}
	}
}
