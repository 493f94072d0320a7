package main

import (
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/net/html"

	readability "github.com/giulianopz/go-readability"
)

// C14: instances are independent of each other and of earlier use.

func keys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// c14Job is one use of the library. Its document is made so that everything
// the library keeps while it works differs from one job to the next.
type c14Job struct {
	name string
	src  string
	uri  string
	opts func() []readability.Option
	test bool // IsProbablyReaderable
}

func c14Jobs() []c14Job {
	p := func(tag string, n int) string { return "<p>" + prose(tag, n) + "</p>" }
	art := func(tag string) string { return p(tag+"a", 320) + p(tag+"b", 320) + p(tag+"c", 320) }
	none := func() []readability.Option { return nil }
	vid := `<p><iframe src="http://vids.example/1"></iframe></p><p><iframe src="http://www.youtube.com/2"></iframe></p>`
	tab := `<table><caption>cap</caption><tr><td class="a"><a href="t">t1</a></td><td><a href="u">t2</a></td></tr></table>`
	ld := `<script type="application/ld+json">{"@context":"https://schema.org","@type":"NewsArticle","headline":"Headline by linked data","author":{"name":"Linda Ld"},"description":"described","publisher":{"name":"pubs"},"datePublished":"2001"}</script>`
	return []c14Job{
		{name: "plain", src: `<html lang="en" dir="rtl"><head><title>The title of page zero is here</title><base href="/base0/"/></head><body><div class="byline">By Zero Zed</div><article class="a b c"><p class="a b c d">` + prose("zero", 500) + `</p><p><a href="rel">link</a> ` + prose("zeroo", 300) + `</p>` + tab + vid + `</article></body></html>`, uri: docURI, opts: none},
		{name: "bare", src: `<body><div class="sidebar comment">` + p("bare", 60) + `<ul><li>one</li></ul></div></body>`, uri: "", opts: none},
		{name: "json-ld", src: `<html lang="fr"><head><title>ld page</title>` + ld + `</head><body><div dir="ltr"><section class="a">` + art("lin") + `</section></div></body></html>`, uri: "http://other.example/x/", opts: func() []readability.Option { return []readability.Option{readability.ClassesToPreserve("a")} }},
		{name: "no-json-ld", src: `<html><head><title>some ld page which is not used: really</title>` + ld + `</head><body><article class="b a"><p class="a c b">` + prose("nol", 600) + `</p>` + art("nol") + vid + `</article></body></html>`, uri: "http://other.example/y", opts: func() []readability.Option {
			return []readability.Option{readability.DisableJSONLD(true), readability.ClassesToPreserve("b", "c"), readability.AllowedVideoRegex(regexp.MustCompile(`vids\.example`))}
		}},
		{name: "keep", src: `<html><head><title>Keep them all | Site of keep</title><meta name="author" content="Kay Keep"/></head><body><div id="k" class="a content"><p class="d a">` + prose("kee", 300) + `</p>` + art("kee") + `</div></body></html>`, uri: "http://keep.example/", opts: func() []readability.Option {
			return []readability.Option{readability.KeepClasses(true), readability.NTopCandidates(2)}
		}},
		{name: "threshold", src: `<html lang="de"><head><title>short</title></head><body><article dir="auto">` + p("thr", 90) + `<div class="share">` + p("shr", 80) + `</div></article></body></html>`, uri: "http://t.example/", opts: func() []readability.Option { return []readability.Option{readability.CharThreshold(120)} }},
		{name: "too-many", src: page("", art("too")), uri: docURI, opts: func() []readability.Option { return []readability.Option{readability.MaxElemsToParse(3)} }},
		{name: "empty", src: `<html lang="it"><head><title>nothing in here at all</title></head><body><div class="author">Emma Empty</div></body></html>`, uri: docURI, opts: none},
		{name: "no-body", src: `<p>nobody</p>`, uri: docURI, opts: none},
		{name: "own-output", src: page("", `<article class="a d">`+art("own")+`</article>`), uri: docURI, opts: func() []readability.Option {
			return []readability.Option{
				readability.Serializer(func(n *readability.Node) string { return "S:" + n.GetTextContent() }),
				readability.Html2Text(func(s string) string { return "T:" + s }), readability.ClassesToPreserve("d")}
		}},
		{name: "panics", src: page("", `<article class="a d"><h2>Byline here</h2><p class="author">Paul Panic</p>`+art("pan")+`</article>`), uri: "http://p.example/", opts: func() []readability.Option {
			return []readability.Option{readability.Serializer(func(n *readability.Node) string { panic("no") }), readability.ClassesToPreserve("e", "f", "g")}
		}},
		{name: "broken-ld", src: `<html><head><title>a page whose data is broken</title>` + strings.Replace(ld, `"2001"}`, `"2001"`, 1) + `<meta property="og:title" content="Broken title"/></head><body><article>` + art("bro") + `</article></body></html>`, uri: "http://b.example/", opts: none},
		{name: "tricky", src: `<html><head><title>Tricky &amp; odd: the page of it</title><meta property="article:published_time" content="1999"/></head><body><h1>Tricky &amp; odd: the page of it</h1><div class="main a"><noscript><img src="n.png"/></noscript><img data-src="l.jpg"/>one<br/><br/>two ` + prose("tri", 300) + `<p hidden="">hid</p><p>` + prose("trj", 200) + ` &#233;</p>` + tab + `<ul><li><a href="#x">x</a></li></ul></div><div class="rest"><p>` + prose("trk", 250) + `</p></div></body></html>`, uri: "http://y.example/d/", opts: none},
		{name: "readerable", src: page("", art("rea")), test: true, opts: none},
		{name: "not-readerable", src: page("", art("rea")), test: true, opts: func() []readability.Option {
			return []readability.Option{readability.MinScore(900), readability.MinContentLength(10), readability.VisibilityChecker(func(*html.Node) bool { return true })}
		}},
	}
}

// c14Alike lists documents which are alike but for a detail: what is remembered
// of one of them by less than all it depends on is wrong for another.
func c14Alike() []c14Job {
	in := []string{"",
		`<p style="color:red">one, two and three</p>`, `<p style="color:red" hidden="">one, two and three</p>`, `<p style="color:red" aria-hidden="true">one, two and three</p>`, `<p style="color:red" aria-hidden="true" class="fallback-image">one, two and three</p>`, `<p style="display:none">one, two and three</p>`, `<p style="color:red" role="menu">one, two and three</p>`,
		`<p><a href="rel">one</a>, two and three</p>`, `<p><a href="rel">one, two and three</a></p>`, `<p><a href="#rel">one, two and three</a></p>`, `<p class="share">one, two and three</p>`, `<p id="share">one, two and three</p>`,
		`<div class="c"><p>one, two</p><p>and three</p></div>`, `<div class="c tool"><p>one, two</p><p>and three</p></div>`, `<div class="c" id="tool"><p>one, two</p><p>and three</p></div>`, `<div class="c"><p>one, two</p><p>and <a href="rel">three</a></p></div>`, `<section class="c"><p>one, two</p><p>and three</p></section>`, `<div class="text"><p>one, two</p><p>and <a href="rel">three</a></p></div>`,
		`<h2>The page which is like the others</h2>`, `<h2 class="c">The page which is unlike any</h2>`, `<p class="byline">One Two</p>`, `<p class="byline" hidden="">One Two</p>`, `<p class="author">Two One</p>`, `<p rel="author">One Two</p>`,
		`<img src="rel.png"/>`, `<img data-src="rel.png"/>`, `<img src="rel.png" class="lazy" data-src="real.png"/>`, `<figure><img src="rel.png"/></figure>`, `<img/><noscript><img src="rel.png"/></noscript>`, `<iframe src="http://vids.example/1"></iframe>`, `<iframe src="http://www.youtube.com/1"></iframe>`, `<iframe data-u="http://www.youtube.com/1"></iframe>`,
		`<table><tr><td>one, two</td><td>and three</td></tr></table>`, `<table><caption>c</caption><tr><td>one, two</td><td>and three</td></tr></table>`, `<table><tr><td>one, two and three</td></tr></table>`, `<ul><li>one, two</li><li>and three</li></ul>`, `<ul><li>one, two</li><li>and <a href="rel">three</a></li></ul>`, "one<br/><br/>two", "one<br/>two", `<script>rel</script>`, `<font>one</font>`, `<span>one</span>`, `<p>one &amp; two</p>`, `<p>one &amp;amp; two</p>`,
	}
	outer := []string{`<div class="c">M1XM2</div>`, `<div class="c hidden-c comment">M1XM2</div>`, `<article dir="rtl">M1XM2</article>`}
	head := []string{"", `<base href="/base/"/>`, `<meta name="author" content="Meta"/>`}
	uris := []string{docURI, "http://other.example/x/y/z"}
	opts := []func() []readability.Option{
		func() []readability.Option { return nil },
		func() []readability.Option { return []readability.Option{readability.KeepClasses(true)} },
		func() []readability.Option {
			return []readability.Option{readability.CharThreshold(100000), readability.ClassesToPreserve("c")}
		},
		func() []readability.Option {
			return []readability.Option{readability.AllowedVideoRegex(regexp.MustCompile(`vids\.example`)), readability.NTopCandidates(1)}
		},
	}
	var jobs []c14Job
	for _, x := range in {
		for _, v := range [][4]int{{}, {1, 0, 0, 0}, {2, 0, 0, 0}, {0, 1, 0, 0}, {0, 2, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {0, 0, 0, 2}, {0, 0, 0, 3}} {
			body := strings.NewReplacer("M1", "<p>"+prose("al", 300)+"</p>", "M2", "<p>"+prose("ik", 300)+"</p>", "X", x).Replace(outer[v[0]])
			jobs = append(jobs, c14Job{name: fmt.Sprint(x, v), src: "<html><head><title>The page which is like the others</title>" + head[v[1]] + "</head><body>" + body + "</body></html>", uri: uris[v[2]], opts: opts[v[3]]})
		}
	}
	return jobs
}

var c14AlikeBase sync.Map

func c14AlikeExpected(i int) string {
	if s, ok := c14AlikeBase.Load(i); ok {
		return s.(string)
	}
	out, err := exec.Command(os.Args[0], "c14alike", strconv.Itoa(i)).Output()
	check(err)
	c14AlikeBase.Store(i, string(out))
	return string(out)
}

func c14RunAlike(i int) {
	quiet()
	in := &c14Inst{job: &c14Alike()[i]}
	in.open()
	in.finish()
	fmt.Print(in.sig)
}

type c14Inst struct {
	job *c14Job
	p   *readability.Readability
	err string
	sig string
}

// open is the first half of a use, finish the second.
func (in *c14Inst) open(extra ...readability.Option) {
	defer in.guard()
	if in.job.test {
		return
	}
	p, err := readability.New(in.job.src, in.job.uri, append(in.job.opts(), extra...)...)
	if err != nil {
		in.err = err.Error()
	}
	in.p = p
}

func (in *c14Inst) guard() {
	if e := recover(); e != nil {
		in.sig = fmt.Sprintf("panic: %v", e)
		if s := fmt.Sprint(e); s != "no" {
			in.sig += trimStack(string(debug.Stack()))
		}
	}
}

func (in *c14Inst) finish(extra ...readability.Option) {
	defer in.guard()
	if in.job.test {
		in.sig = fmt.Sprint(readability.IsProbablyReaderable(in.job.src, append(in.job.opts(), extra...)...))
		return
	}
	if in.p == nil {
		in.sig = "new: " + in.err
		return
	}
	res, err := in.p.Parse()
	in.sig = fmt.Sprintf("%v %+v", err, res)
}

var c14Base = struct {
	sync.Once
	sigs []string
}{}

// c14Expected is what every job returns when it is all that its process does.
func c14Expected() []string {
	c14Base.Do(func() {
		for i := range c14Jobs() {
			out, err := exec.Command(os.Args[0], "c14job", strconv.Itoa(i)).Output()
			check(err)
			c14Base.sigs = append(c14Base.sigs, string(out))
		}
	})
	return c14Base.sigs
}

func c14RunJob(i int) {
	quiet()
	in := &c14Inst{job: &c14Jobs()[i]}
	in.open()
	in.finish()
	fmt.Print(in.sig)
}

func (t *T) c14Compare(i int, sig, when string) {
	t.Trace()
	t.Outcome(sig)
	if want := c14Expected()[i]; sig != want {
		t.Fail("the job %q %s does not return what it returns alone:\n%s\nwant:\n%s", c14Jobs()[i].name, when, diffAt(sig, want), diffAt(want, sig))
	}
}

// diffAt is the part of a where it differs from b.
func diffAt(a, b string) string {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	lo, hi := max(0, k-80), min(len(a), k+200)
	return fmt.Sprintf("...%q", a[lo:hi])
}

// c14Orders is every interleaving of the two halves of n uses.
func c14Orders(n int) [][]int {
	left := make([]int, n)
	for i := range left {
		left[i] = 2
	}
	var res [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == 2*n {
			res = append(res, slices.Clone(cur))
			return
		}
		for i := range left {
			if left[i] > 0 {
				left[i]--
				rec(append(cur, i))
				left[i]++
			}
		}
	}
	rec(nil)
	return res
}

// race runs pairs of jobs at the same time, for the race detector to watch.
func c14Race(i int) {
	quiet()
	jobs := c14Jobs()
	for j := range jobs {
		for _, shared := range []bool{false, true} {
			var extra []readability.Option
			if shared {
				// an option value may be used by any number of instances
				extra = []readability.Option{readability.ClassesToPreserve("x", "y"), readability.NTopCandidates(5)}
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			sig := make([]string, 4)
			for k, x := range []int{i, j, i, j} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					in := &c14Inst{job: &jobs[x]}
					in.open(extra...)
					in.finish(extra...)
					sig[k] = in.sig
				}()
			}
			close(start)
			wg.Wait()
			if sig[0] != sig[2] || sig[1] != sig[3] {
				fmt.Printf("two concurrent runs of the same job differ: %s / %s", jobs[i].name, jobs[j].name)
				os.Exit(67)
			}
			if !shared {
				for k, x := range []int{i, j} {
					if want := c14Expected()[x]; sig[k] != want {
						fmt.Printf("the job %s next to %s does not return what it returns alone: %s", jobs[x].name, jobs[i+j-x].name, diffAt(sig[k], want))
						os.Exit(67)
					}
				}
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C14", Level: "model_checking",
		Rule: "every history of uses up to a length, every interleaving of the halves of two or three uses, nested uses from callbacks, every schedule of two concurrent uses up to a preemption bound under a controlled scheduler (real code, instrumented), each pair of uses under the race detector; all against what each job returns in a process of its own; non-trivial: a distinct history or schedule",
		Families: func(tier string) []Family {
			jobs := c14Jobs()
			n := len(jobs)
			var fs []Family
			L := 3
			if tier == "thorough" {
				L = 5
			}
			fs = append(fs, Family{Name: "histories", N: seqCount(n, 1, L), Run: func(t *T, i uint64) {
				h := seqAt(i, n, 1, L)
				var names []string
				for _, x := range h {
					names = append(names, jobs[x].name)
				}
				t.Begin("history %v", names)
				t.State("h", fmt.Sprint(h))
				for k, x := range h {
					in := &c14Inst{job: &jobs[x]}
					in.open()
					in.finish()
					t.Trans += 2
					t.c14Compare(x, in.sig, fmt.Sprintf("at position %d", k))
				}
			}})
			// one document after another which is like it
			alike := c14Alike()
			na := len(alike)
			fs = append(fs, Family{Name: "alike", N: size(na, na), Run: func(t *T, i uint64) {
				d := &dec{i}
				xs := [2]int{d.n(na), d.n(na)}
				t.Begin("%s, then %s", alike[xs[0]].name, alike[xs[1]].name)
				t.State("a", fmt.Sprint(xs))
				for _, x := range xs {
					in := &c14Inst{job: &alike[x]}
					in.open()
					in.finish()
					t.Trans += 2
					t.Trace()
					t.Outcome(in.sig)
					if want := c14AlikeExpected(x); in.sig != want {
						t.Fail("the job %q does not return what it returns alone:\n%s\nwant:\n%s", alike[x].name, diffAt(in.sig, want), diffAt(want, in.sig))
					}
				}
			}})
			for _, k := range []int{2, 3} {
				orders := c14Orders(k)
				m := n
				if k == 3 && tier == "quick" {
					m = 6
				}
				N := pow(m, k) * uint64(len(orders))
				fs = append(fs, Family{Name: fmt.Sprintf("lifecycles-%d", k), N: N, Run: func(t *T, i uint64) {
					d := &dec{i}
					order := pick(d, orders)
					ins := make([]*c14Inst, k)
					xs := make([]int, k)
					for a := range ins {
						xs[a] = d.n(m)
						ins[a] = &c14Inst{job: &jobs[xs[a]]}
					}
					t.Begin("jobs %v, order %v (each number is created at its first, parsed at its second occurrence)", xs, order)
					t.State("l", fmt.Sprint(xs, order))
					seen := make([]bool, k)
					for _, a := range order {
						t.Trans++
						if !seen[a] {
							seen[a] = true
							ins[a].open()
						} else {
							ins[a].finish()
						}
					}
					for a := range ins {
						t.c14Compare(xs[a], ins[a].sig, fmt.Sprintf("(number %d)", a))
					}
				}})
			}
			// one option value for several instances, next to options of their own
			shared := [][]string{{"a"}, {"a", "b"}, {"d", "c"}, {}}
			orders := c14Orders(2)
			fs = append(fs, Family{Name: "shared-options", N: size(len(shared), len(shared), len(orders), 3, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				s1, s2, order, kind, spare := pick(d, shared), pick(d, shared), pick(d, orders), d.n(3), d.b()
				c1, c2 := slices.Clone(s1), slices.Clone(s2)
				if spare {
					c1, c2 = append(make([]string, 0, 16), s1...), append(make([]string, 0, 16), s2...)
				}
				o1, o2 := readability.ClassesToPreserve(c1...), readability.ClassesToPreserve(c2...)
				opts := [2][]readability.Option{{o1}, {o2}}
				want := [2][]string{s1, s2}
				switch kind {
				case 1:
					opts, want = [2][]readability.Option{{o1}, {o1}}, [2][]string{s1, s1}
				case 2:
					opts, want = [2][]readability.Option{{o1, o2}, {o2}}, [2][]string{append(slices.Clone(s1), s2...), s2}
				}
				t.Begin("ClassesToPreserve%q and ClassesToPreserve%q, kind %d, order %v, spare %v", s1, s2, kind, order, spare)
				t.State("o", t.desc)
				src := page("", `<article>`+`<p class="a b c d e">`+prose("oneo", 400)+`</p><p>`+prose("twoo", 400)+`</p></article>`)
				var ps [2]*readability.Readability
				for _, a := range order {
					t.Trans++
					if ps[a] == nil {
						p, err := readability.New(src, docURI, opts[a]...)
						if err != nil {
							t.Fail("%v", err)
							return
						}
						ps[a] = p
						continue
					}
					res, err := ps[a].Parse()
					if err != nil {
						t.Fail("%v", err)
						return
					}
					var keep []string
					for _, c := range []string{"a", "b", "c", "d", "e"} {
						if slices.Contains(want[a], c) {
							keep = append(keep, c)
						}
					}
					e := elems(parseOut(res.HTMLContent), "p")
					got := ""
					if len(e) > 0 {
						got, _ = attrOf(e[0], "class")
					}
					t.Trace()
					if got != strings.Join(keep, " ") {
						t.Fail("instance %d keeps the classes %q, want %q", a, got, keep)
					}
				}
				if !slices.Equal(c1, s1) || !slices.Equal(c2, s2) {
					t.Fail("the list of the caller is changed: %q %q", c1, c2)
				}
			}})
			// a use within a callback of another one
			fs = append(fs, Family{Name: "nested", N: size(n, n, n, 3), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, c, kind := d.n(n), d.n(n), d.n(n), d.n(3)
				if jobs[a].test != (kind == 2) || jobs[a].name == "own-output" || jobs[a].name == "panics" || jobs[a].name == "not-readerable" {
					return
				}
				t.Begin("%s, which in its callback %d runs %s and %s", jobs[a].name, kind, jobs[b].name, jobs[c].name)
				t.State("n", t.desc)
				inner := func() {
					for _, x := range []int{b, c} {
						in := &c14Inst{job: &jobs[x]}
						in.open()
						in.finish()
						t.Trans += 2
						t.c14Compare(x, in.sig, "in a callback")
					}
				}
				var o readability.Option
				ran := false
				switch kind {
				case 0:
					o = readability.Serializer(func(n *readability.Node) string {
						before := n.GetInnerHTML()
						inner()
						if after := n.GetInnerHTML(); after != before {
							t.Fail("the content changes while another document is parsed")
						}
						return before
					})
				case 1:
					// the text is that of the plain content
					var own *readability.Node
					oo := readability.Serializer(func(n *readability.Node) string { own = n; return n.GetInnerHTML() })
					o = func(op *readability.Options) {
						oo(op)
						readability.Html2Text(func(s string) string {
							inner()
							return own.GetTextContent()
						})(op)
					}
				case 2:
					o = readability.VisibilityChecker(func(n *html.Node) bool {
						if !ran {
							ran = true
							inner()
						}
						return true
					})
				}
				in := &c14Inst{job: &jobs[a]}
				in.open(o)
				in.finish(o)
				t.c14Compare(a, in.sig, "with others in its callback")
			}})
			// a content which is kept does not change afterwards
			fs = append(fs, Family{Name: "kept-nodes", N: size(n, n, 2), Run: func(t *T, i uint64) {
				d := &dec{i}
				a, b, edit := d.n(n), d.n(n), d.b()
				if jobs[a].test || jobs[a].name == "panics" {
					return
				}
				t.Begin("the content of %s is kept (edited: %v) while %s runs", jobs[a].name, edit, jobs[b].name)
				t.State("k", t.desc)
				var kept *readability.Node
				in := &c14Inst{job: &jobs[a]}
				in.open(readability.Serializer(func(n *readability.Node) string { kept = n; return n.GetInnerHTML() }))
				in.finish()
				if kept == nil {
					return
				}
				if edit {
					kept.SetInnerHTML("<b>edited</b>")
					kept.SetAttribute("class", "edited")
				}
				before := kept.GetInnerHTML()
				in = &c14Inst{job: &jobs[b]}
				in.open()
				in.finish()
				t.c14Compare(b, in.sig, "after a content was kept")
				if after := kept.GetInnerHTML(); after != before {
					t.Fail("the kept content has changed: %s", diffAt(after, before))
				}
			}})
			fs = append(fs, c14SchedFamilies(tier)...)
			if os.Getenv("MC_RACE") != "" {
				fs = append(fs, Family{Name: "race-detector", N: uint64(n), Slow: true, Run: func(t *T, i uint64) {
					t.Begin("%s at the same time as every other job, under the race detector", jobs[i].name)
					t.State("r", t.desc)
					t.Trans += uint64(8 * n)
					cmd := exec.Command("timeout", "300", os.Getenv("MC_RACE"), "c14race", fmt.Sprint(i))
					cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
					out, err := cmd.CombinedOutput()
					t.Trace()
					if err != nil {
						if len(out) > 2500 {
							out = out[:2500]
						}
						t.Fail("%v: %s", err, out)
					}
				}})
			}
			return fs
		}})
}
