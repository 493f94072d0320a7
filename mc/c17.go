package main

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// C17: IsProbablyReaderable against a model of its score.

// rnode is a node of the model's document.
type rnode struct {
	tag   string // "" for a text
	text  string
	attrs string
	hid   bool // hidden by its own attributes
	bad   bool // unlikely by its own class and id
	kids  []*rnode
}

func rE(tag string, kids ...*rnode) *rnode { return &rnode{tag: tag, kids: kids} }
func rT(s string) *rnode                   { return &rnode{text: s} }

func (n *rnode) render(b *strings.Builder) {
	if n.tag == "" {
		b.WriteString(strings.NewReplacer("&", "&amp;", "<", "&lt;").Replace(n.text))
		return
	}
	b.WriteString("<" + n.tag)
	if n.attrs != "" {
		b.WriteString(" " + n.attrs)
	}
	b.WriteString(">")
	if n.tag == "br" || n.tag == "img" {
		return
	}
	for _, k := range n.kids {
		k.render(b)
	}
	b.WriteString("</" + n.tag + ">")
}

func (n *rnode) content(b *strings.Builder) {
	b.WriteString(n.text)
	for _, k := range n.kids {
		k.content(b)
	}
}

// rScore lists the lengths of the nodes which take part.
func rScore(n *rnode, inLi bool, minLen int, vis func(*rnode) bool, out *[]int) {
	counts := n.tag == "p" || n.tag == "pre" || n.tag == "article"
	if n.tag == "div" {
		for _, k := range n.kids {
			counts = counts || k.tag == "br"
		}
	}
	if counts && vis(n) && !n.bad && !(n.tag == "p" && inLi) {
		var b strings.Builder
		n.content(&b)
		if l := utf8.RuneCountInString(strings.TrimSpace(b.String())); l >= minLen {
			*out = append(*out, l-minLen)
		}
	}
	for _, k := range n.kids {
		rScore(k, inLi || n.tag == "li", minLen, vis, out)
	}
}

// c17Check explores the answers around the exact score.
func c17Check(t *T, body []*rnode, minLen int, setLen bool, checker func(*html.Node) bool, vis func(*rnode) bool, full bool) {
	var b strings.Builder
	root := rE("body", body...)
	for _, n := range body {
		n.render(&b)
	}
	src := "<html><head><title>t</title></head><body>" + b.String() + "</body></html>"
	t.Begin("%s", src)
	if vis == nil {
		vis = func(n *rnode) bool { return !n.hid }
	}
	var ls []int
	rScore(root, false, minLen, vis, &ls)
	sum, exact := 0.0, true
	for _, l := range ls {
		s := math.Sqrt(float64(l))
		exact = exact && s == math.Trunc(s)
		sum += s
	}
	var opts []readability.Option
	if setLen {
		opts = append(opts, readability.MinContentLength(minLen))
	}
	if checker != nil {
		opts = append(opts, readability.VisibilityChecker(checker))
	}
	ask := func(min float64, set bool, want bool) {
		o := opts
		if set {
			o = append(append([]readability.Option{}, opts...), readability.MinScore(min))
		}
		t.Trans++
		t.Trace()
		if got := readability.IsProbablyReaderable(src, o...); got != want {
			t.Fail("minimal length %d, minimal score %v: got %v, the lengths beyond it are %v (score %v)", minLen, min, got, ls, sum)
		}
	}
	t.State(src, fmt.Sprint(minLen, setLen))
	t.Outcome(fmt.Sprint(ls))
	if exact || sum < 19.999 || sum > 20.001 {
		ask(20, false, sum > 20)
	}
	if !full {
		return
	}
	any := len(ls) > 0
	ask(sum-1e-6, true, any)
	ask(sum+1e-6, true, false)
	if exact {
		ask(sum, true, false)
	}
	ask(sum/2-0.001, true, any)
	ask(-1, true, any)
	ask(sum+1000, true, false)
}

// exactly n characters; some of them outside of ASCII, blanks around and inside
func c17Text(n, kind int) string {
	if n <= 0 {
		return ""
	}
	switch kind {
	case 1:
		return strings.Repeat("é", n)
	case 2:
		return "  \n" + strings.Repeat("x", n) + " \t "
	case 3:
		if n > 4 {
			return "a" + strings.Repeat(" ", n-2) + "b"
		}
	case 4:
		return strings.Repeat("漢", n-1) + "&"
	}
	return strings.Repeat("y", n)
}

var c17Conceal = []struct {
	attrs string
	hid   bool
}{
	{``, false}, {`style="display:none"`, true}, {`style="display: none;"`, true}, {`style=" DISPLAY : NONE "`, true}, {`style="color:red;display:none"`, true}, {`style="display:none !important"`, true}, {`style="visibility:hidden"`, true}, {`style="VISIBILITY: Hidden"`, true}, {`style="width:1px; visibility : hidden ;"`, true},
	{`hidden`, true}, {`hidden=""`, true}, {`hidden="hidden"`, true}, {`aria-hidden="true"`, true}, {`aria-hidden="true" class="content"`, true}, {`aria-hidden="true" class="x fallback-image y"`, false}, {`aria-hidden="false"`, false}, {`aria-hidden=""`, false},
	{`style="display:block"`, false}, {`style="visibility:visible"`, false}, {`style="color:red"`, false}, {`style="overflow:hidden"`, false}, {`style="float:none"`, false}, {`style=""`, false}, {`data-hidden="true"`, false}, {`style="display:nonexistent"`, false}, {`class="hidden"`, false}, {`hidden class="fallback-image"`, true}, {`style="display:none" class="fallback-image"`, true},
}

// the class names which make a node unlikely, and those which save it
var c17Unlikely = []string{"-ad-", "ai2html", "banner", "breadcrumbs", "combx", "comment", "community", "cover-wrap", "disqus", "extra", "footer", "gdpr", "header", "legends", "menu", "related", "remark", "replies", "rss", "shoutbox", "sidebar", "skyscraper", "social", "sponsor", "supplemental", "ad-break", "agegate", "pagination", "pager", "popup", "yom-remote"}
var c17Maybe = []string{"and", "article", "body", "column", "content", "main", "shadow"}

// c17Bad is the model of being unlikely, for the class and id given.
func c17Bad(class, id string) bool {
	s := strings.ToLower(class + " " + id)
	bad := false
	for _, u := range c17Unlikely {
		bad = bad || strings.Contains(s, u)
	}
	for _, m := range c17Maybe {
		if strings.Contains(s, m) {
			return false
		}
	}
	return bad
}

// places for a node with the given text: X is the node
func c17Kinds(text func(int) string, l int) []*rnode {
	s := text(l)
	return []*rnode{
		rE("p", rT(s)), rE("pre", rT(s)), rE("article", rT(s)), rE("div", rT(s)), rE("div", rT(s), rE("br")), rE("div", rE("br"), rT(s), rE("br")), rE("div", rE("span", rT(s), rE("br"))), rE("section", rT(s), rE("br")), rE("blockquote", rT(s)), rE("span", rT(s)), rE("p", rT(s), rE("br"), rE("br")), rE("p", rE("em", rT(s))),
		rE("article", rE("p", rT(s))), rE("article", rE("div", rT(s), rE("br"))), rE("div", rE("br"), rE("p", rT(s))), rE("div", rE("br"), rE("div", rE("br"), rT(s))), rE("article", rE("article", rT(s))), rE("article", rE("p", rT(s)), rE("p", rT(s)), rE("pre", rT(s))),
		rE("ul", rE("li", rE("p", rT(s)))), rE("ul", rE("li", rE("div", rE("p", rT(s))))), rE("ul", rE("li", rE("pre", rT(s)))), rE("ul", rE("li", rE("article", rT(s)))), rE("ul", rE("li", rE("div", rE("br"), rT(s)))), rE("ol", rE("li", rE("article", rE("p", rT(s))))), rE("ul", rE("li", rT(s))), rE("dl", rE("dd", rE("p", rT(s)))),
		rE("table", rE("tbody", rE("tr", rE("td", rE("p", rT(s)))))), rE("section", rE("div", rE("p", rT(s)))), rE("main", rE("p", rT(s)), rE("p", rT(s))), rE("p"), rE("div", rE("br")), rE("article"),
		rE("div", rE("br"), rE("p", rT(s)), rE("article", rT(s)), rT(s)), rE("footer", rE("p", rT(s))), rE("pre", rE("code", rT(s))),
	}
}

func c17Attr(n *rnode, attrs string, hid, bad bool) *rnode {
	// the attributes go to the innermost element with the text as well as to the outer one
	n.attrs, n.hid, n.bad = attrs, hid, bad
	return n
}

func init() {
	register(&Prop{ID: "C17", Level: "model_checking",
		Rule: "every document of up to 4 (quick) or 5 (thorough) blocks x nestings x lengths around the limit x ways to hide x class names, asked for scores just below, at and above the exact one of the model; non-trivial: a distinct document and length limit",
		Families: func(tier string) []Family {
			var fs []Family
			nk := len(c17Kinds(func(n int) string { return "" }, 0))
			lens := []int{140, 0, 1, 20, 141, 139, 400, -5}
			deltas := []int{-2, -1, 0, 1, 4, 100, 399, 400, 401, 441}
			fs = append(fs, Family{Name: "single", N: size(nk, len(lens), len(deltas), 5), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, ml, dl, tk := d.n(nk), pick(d, lens), pick(d, deltas), d.n(5)
				n := c17Kinds(func(n int) string { return c17Text(n, tk) }, ml+dl)[k]
				c17Check(t, []*rnode{n}, ml, ml != 140, nil, nil, true)
			}})
			// attributes of each kind, at both ends of the nesting
			fs = append(fs, Family{Name: "hidden", N: size(nk, len(c17Conceal), 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				k, c, deep := d.n(nk), pick(d, c17Conceal), d.b()
				n := c17Kinds(func(n int) string { return c17Text(n, 0) }, 200)[k]
				m := n
				for deep && len(m.kids) > 0 && m.kids[len(m.kids)-1].tag != "" && m.kids[len(m.kids)-1].tag != "br" {
					m = m.kids[len(m.kids)-1]
				}
				c17Attr(m, c.attrs, c.hid, false)
				c17Check(t, []*rnode{n, rE("p", rT(c17Text(176, 0)))}, 140, false, nil, nil, true)
			}})
			fs = append(fs, Family{Name: "declarations", N: seqCount(len(styleDecls), 1, 3) * size(2, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				sep, k := pick(d, styleSeps), d.n(3)
				css, hid := styleOf(seqAt(d.i, len(styleDecls), 1, 3), sep)
				n := c17Kinds(func(n int) string { return c17Text(n, 0) }, 200)[k]
				c17Attr(n, `style="`+css+`"`, hid, false)
				c17Check(t, []*rnode{n, rE("p", rT(c17Text(176, 0)))}, 140, false, nil, nil, true)
			}})
			names := append(append(append([]string{}, c17Unlikely...), c17Maybe...), minedNames()...)
			fs = append(fs, Family{Name: "classes", N: size(len(names), 6, 5), Run: func(t *T, i uint64) {
				d := &dec{i}
				nm, spell, k := pick(d, names), d.n(6), d.n(5)
				class, id := "", ""
				switch spell {
				case 0:
					class = nm
				case 1:
					id = nm
				case 2:
					class = "x" + strings.ToUpper(nm) + "y z"
				case 3:
					class, id = nm, "x-main-y"
				case 4:
					class, id = "sidebar", nm
				case 5:
					class = nm + " " + nm
				}
				n := c17Kinds(func(n int) string { return c17Text(n, 0) }, 200)[k]
				var a []string
				if class != "" {
					a = append(a, `class="`+class+`"`)
				}
				if id != "" {
					a = append(a, `id="`+id+`"`)
				}
				c17Attr(n, strings.Join(a, " "), false, c17Bad(class, id))
				c17Check(t, []*rnode{n, rE("p", rT(c17Text(176, 0)))}, 140, false, nil, nil, true)
			}})
			// sequences of blocks
			mk := func(j int) *rnode {
				switch j {
				case 0:
					return rE("p", rT(c17Text(240, 0)))
				case 1:
					return rE("p", rT(c17Text(139, 0)))
				case 2:
					return rE("pre", rT(c17Text(176, 1)))
				case 3:
					return rE("article", rE("p", rT(c17Text(149, 0))))
				case 4:
					return rE("div", rT(c17Text(204, 0)), rE("br"), rE("br"))
				case 5:
					return rE("div", rT(c17Text(540, 0)))
				case 6:
					return rE("ul", rE("li", rE("p", rT(c17Text(540, 0)))))
				case 7:
					return c17Attr(rE("p", rT(c17Text(540, 0))), `style="display:none"`, true, false)
				case 8:
					return c17Attr(rE("p", rT(c17Text(540, 0))), `class="comment"`, false, true)
				case 9:
					return c17Attr(rE("p", rT(c17Text(164, 2))), `class="comment content"`, false, false)
				case 10:
					return rE("p", rT(c17Text(540, 0)))
				case 11:
					return rE("div", rE("br"), rE("div", rE("br"), rT(c17Text(156, 0))))
				case 12:
					return rE("p", rT(c17Text(140, 3)))
				}
				return c17Attr(rE("article", rE("p", rT(c17Text(165, 0)))), `class="related"`, false, true)
			}
			L := 4
			if tier == "thorough" {
				L = 5
			}
			fs = append(fs, Family{Name: "sequences", N: seqCount(14, 0, L) * 2, Run: func(t *T, i uint64) {
				d := &dec{i}
				wrap := d.b()
				var ns []*rnode
				for _, j := range seqAt(d.i, 14, 0, L) {
					ns = append(ns, mk(j))
				}
				if wrap {
					ns = []*rnode{rE("div", ns...)}
				}
				c17Check(t, ns, 140, false, nil, nil, true)
			}})
			// every small tree of divs, line breaks, paragraphs and list items
			TL := 6
			if tier == "thorough" {
				TL = 7
			}
			fs = append(fs, Family{Name: "trees", N: seqCount(7, 1, TL), Run: func(t *T, i uint64) {
				root := rE("div")
				stack := []*rnode{root}
				push := func(n *rnode, open bool) {
					top := stack[len(stack)-1]
					top.kids = append(top.kids, n)
					if open {
						stack = append(stack, n)
					}
				}
				for k, j := range seqAt(i, 7, 1, TL) {
					switch j {
					case 0:
						push(rE("div"), true)
					case 1:
						if len(stack) > 1 {
							stack = stack[:len(stack)-1]
						}
					case 2:
						push(rE("br"), false)
					case 3:
						push(rT(c17Text(149+k, 0)), false)
					case 4:
						push(rE("p", rT(c17Text(144, 0))), false)
					case 5:
						push(rE("ul", rE("li")), false)
						u := stack[len(stack)-1].kids
						stack = append(stack, u[len(u)-1].kids[0])
					case 6:
						push(rE("article"), true)
					}
				}
				c17Check(t, []*rnode{root}, 140, false, nil, nil, true)
			}})
			// words which only the class and the id together would make
			var splits [][2]string
			for _, w := range append(append([]string{}, c17Unlikely...), c17Maybe...) {
				for k := 1; k < len(w); k++ {
					splits = append(splits, [2]string{w[:k], w[k:]})
				}
			}
			fs = append(fs, Family{Name: "split-words", N: size(len(splits), 2, 5, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				w, rev, k, pre := pick(d, splits), d.b(), d.n(5), []string{"", "sidebar ", "zz "}[d.n(3)]
				class, id := pre+w[0], w[1]
				if rev {
					class, id = pre+w[1], w[0]
				}
				n := c17Kinds(func(n int) string { return c17Text(n, 0) }, 200)[k]
				c17Attr(n, `class="`+class+`" id="`+id+`"`, false, c17Bad(class, id))
				c17Check(t, []*rnode{n, rE("p", rT(c17Text(176, 0)))}, 140, false, nil, nil, true)
			}})
			// many small nodes: the score adds up, or not
			fs = append(fs, Family{Name: "repeated", N: size(60, 8, 14), Run: func(t *T, i uint64) {
				d := &dec{i}
				n, l, k := d.n(60), d.n(8), d.n(14)
				var ns []*rnode
				for j := 0; j < n; j++ {
					if k >= 12 {
						ns = append(ns, rE("p", rT(c17Text([]int{140, 141, 144, 149, 156, 139, 165, 240}[l], k-12))))
					} else {
						ns = append(ns, mk(k))
					}
				}
				c17Check(t, ns, 140, l%2 == 1, nil, nil, true)
			}})
			// a checker of the caller's
			fs = append(fs, Family{Name: "checkers", N: size(14, 14, 6), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, c := mk(d.n(14)), mk(d.n(14)), d.n(6)
				has := func(s string) func(*html.Node) bool {
					return func(n *html.Node) bool { _, ok := attrOf(n, s); return ok }
				}
				var ck func(*html.Node) bool
				var vis func(*rnode) bool
				switch c {
				case 0:
					ck, vis = func(*html.Node) bool { return true }, func(*rnode) bool { return true }
				case 1:
					ck, vis = func(*html.Node) bool { return false }, func(*rnode) bool { return false }
				case 2:
					ck, vis = func(n *html.Node) bool { return n.Data == "p" }, func(n *rnode) bool { return n.tag == "p" }
				case 3:
					ck, vis = func(n *html.Node) bool { return n.Data != "p" }, func(n *rnode) bool { return n.tag != "p" }
				case 4:
					ck, vis = has("style"), func(n *rnode) bool { return strings.Contains(n.attrs, "style=") }
				case 5:
					ck, vis = func(n *html.Node) bool { return !has("class")(n) }, func(n *rnode) bool { return !strings.Contains(n.attrs, "class=") }
				}
				c17Check(t, []*rnode{a, b}, 140, false, ck, vis, true)
			}})
			// minimal length x text length, all values
			fs = append(fs, Family{Name: "length-grid", N: size(60, 60, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				ml, l, tk := d.n(60), d.n(60), d.n(2)
				c17Check(t, []*rnode{rE("p", rT(c17Text(l, tk)))}, ml, true, nil, nil, true)
			}})
			return fs
		},
	})
}
