From 1d80faef456f96cff50c2c7c9c685675c8c62975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:13 +0000
Subject: [PATCH 01/54] fix: do not panic on a style declaration without a
 value

---
 domparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index b1e5d88..1ce7d35 100644
--- a/domparser.go
+++ b/domparser.go
@@ -807,7 +807,8 @@ func (s *style) getStyle(jsName string) string {
 	for i := 0; i < len(styles); i++ {
 		var style = strings.Split(styles[i], ":")
 		var name = strings.TrimSpace(style[0])
-		if name == cssName {
+		// A declaration without a value (e.g. style="display") sets nothing.
+		if name == cssName && len(style) > 1 {
 			return strings.TrimSpace(style[1])
 		}
 	}
-- 
2.43.0


From 0cb38d2c9762ff6cee07d27a8191241db7e883fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:20 +0000
Subject: [PATCH 02/54] fix: do not panic on blank link and media URIs

---
 readability.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readability.go b/readability.go
index 1045860..fb87d57 100644
--- a/readability.go
+++ b/readability.go
@@ -268,6 +268,10 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 
 	var toAbsoluteURI = func(uri string) string {
 		uri = strings.TrimSpace(uri)
+		// A blank reference points nowhere, there is nothing to resolve:
+		if uri == "" {
+			return uri
+		}
 		// Leave hash links alone if the base URI matches the document URI:
 		if baseURI == documentURI && []rune(uri)[0] == '#' {
 			return uri
-- 
2.43.0


From 7d3fd7166e9965ea10bc74edfcda25b06b250c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:26 +0000
Subject: [PATCH 03/54] fix: do not overflow the stack on an empty text node

---
 domparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 1ce7d35..a30af7e 100644
--- a/domparser.go
+++ b/domparser.go
@@ -627,7 +627,8 @@ func newText() *Node {
 }
 
 func (t *Node) getTextContentFromTextNode() string {
-	if t.textContent == "" {
+	// An empty text node has nothing to decode (and decoding would recurse forever).
+	if t.textContent == "" && t.innerHTML != "" {
 		decoded, err := decodeHTML(t.GetInnerHTML())
 		if err != nil {
 			slog.Error("cannot decode inner html", "err", err)
-- 
2.43.0


From 4221c59e2b561f8b8d5123449a01eb8fba09fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:57 +0000
Subject: [PATCH 04/54] fix: recognise hidden styles written in upper case or
 with !important

---
 domparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index a30af7e..3c0f083 100644
--- a/domparser.go
+++ b/domparser.go
@@ -807,10 +807,12 @@ func (s *style) getStyle(jsName string) string {
 	var styles = strings.Split(attr, ";")
 	for i := 0; i < len(styles); i++ {
 		var style = strings.Split(styles[i], ":")
-		var name = strings.TrimSpace(style[0])
+		// CSS property names and keywords are case-insensitive.
+		var name = strings.ToLower(strings.TrimSpace(style[0]))
 		// A declaration without a value (e.g. style="display") sets nothing.
 		if name == cssName && len(style) > 1 {
-			return strings.TrimSpace(style[1])
+			var value, _, _ = strings.Cut(strings.ToLower(style[1]), "!important")
+			return strings.TrimSpace(value)
 		}
 	}
 	return ""
-- 
2.43.0


From 2ad361170a9ebece7ff80bdd57fe94352f7a2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:04 +0000
Subject: [PATCH 05/54] fix: do not panic on JSON-LD contexts, types and
 authors that are not plain strings

---
 readability.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index fb87d57..37030ba 100644
--- a/readability.go
+++ b/readability.go
@@ -1333,7 +1333,9 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 			}
 
 			ctx, ctxFound := parsed["@context"]
-			if !ctxFound || !schemaUrl.MatchString(ctx.(string)) {
+			// A context may also be an object or a list: only a plain Schema.org one is supported.
+			ctxStr, _ := ctx.(string)
+			if !ctxFound || !schemaUrl.MatchString(ctxStr) {
 				continue
 			}
 
@@ -1358,7 +1360,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				}
 			}
 
-			if parsed == nil || parsed["@type"] == nil || !jsonLdArticleTypes.MatchString(parsed["@type"].(string)) {
+			parsedType, _ := parsed["@type"].(string)
+			if parsed == nil || parsed["@type"] == nil || !jsonLdArticleTypes.MatchString(parsedType) {
 				continue
 			}
 
@@ -1406,7 +1409,12 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 								if _, isStr := authorName.(string); isStr {
 									var authorNames []string
 									for _, a := range authors {
-										n := a.(map[string]interface{})["name"].(string)
+										// skip the authors without a textual name
+										authorObj, _ := a.(map[string]interface{})
+										n, isStr := authorObj["name"].(string)
+										if !isStr {
+											continue
+										}
 										authorNames = append(authorNames, strings.TrimSpace(n))
 									}
 									meta.byline = strings.Join(authorNames, ", ")
-- 
2.43.0


From 7b4bb36cac300ee7ad945b3544665606bec6c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:11 +0000
Subject: [PATCH 06/54] fix: do not panic on an upper case BASE64 data URI

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 34c0b95..1a2112e 100644
--- a/regexps.go
+++ b/regexps.go
@@ -48,7 +48,7 @@ var (
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
 	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
-	base64Starts                  = regexp.MustCompile(`base64\s*`)
+	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
 	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
 	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From 5e52f4146c9e4fefe4b7ec7a6fb97b2aa323ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:17 +0000
Subject: [PATCH 07/54] fix: do not panic when the root element is removed by
 more than one attempt

---
 readability.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readability.go b/readability.go
index 37030ba..a0cb11b 100644
--- a/readability.go
+++ b/readability.go
@@ -724,6 +724,10 @@ func (r *Readability) initializeNode(n *Node) {
 
 func (r *Readability) removeAndGetNext(n *Node) *Node {
 	var nextNode = r.getNextNode(n, true)
+	// The root element may have been removed already, by a previous attempt.
+	if n.ParentNode == nil {
+		return nextNode
+	}
 	if _, err := n.ParentNode.RemoveChild(n); err != nil {
 		slog.Error("cannot remove child", slog.String("err", err.Error()))
 	}
-- 
2.43.0


From ba496133185e6d1ab2e2bdc65b5a107810c8d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:23 +0000
Subject: [PATCH 08/54] fix: do not panic on content placed outside of the body

---
 readability.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/readability.go b/readability.go
index a0cb11b..9c164a8 100644
--- a/readability.go
+++ b/readability.go
@@ -992,6 +992,11 @@ func (r *Readability) grabArticle(page *Node) *Node {
 					continue
 				}
 
+				// Only what is in the body can be the article.
+				if ancestor.TagName != "BODY" && !r.hasAncestorTag(ancestor, "body", -1, nil) {
+					continue
+				}
+
 				if ancestor.ReadabilityNode == nil {
 					r.initializeNode(ancestor)
 					candidates = append(candidates, ancestor)
-- 
2.43.0


From 8be9fe3dec18518d428f331368c9e62dc47a3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:30 +0000
Subject: [PATCH 09/54] fix: do not panic on embeds when no allowed video regex
 is set

---
 readability.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 9c164a8..e6f9d85 100644
--- a/readability.go
+++ b/readability.go
@@ -1789,7 +1789,8 @@ func (r *Readability) getClassWeight(e *Node) float64 {
 // (Unless it's a youtube/vimeo video. People love movies.)
 func (r *Readability) clean(e *Node, tag string) {
 
-	var isEmbed = slices.Contains([]string{"object", "embed", "iframe"}, tag)
+	var isEmbed = slices.Contains([]string{"object", "embed", "iframe"}, tag) &&
+		r.options.allowedVideoRegex != nil
 
 	r.removeNodes(r.getAllNodesWithTag(e, tag), func(element *Node) bool {
 		// Allow youtube and vimeo videos through as people usually want to see those.
-- 
2.43.0


From e684effefbe53ba788899a24f218b2c58cebbe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:30 +0000
Subject: [PATCH 10/54] fix: resolve URIs with percent escapes, user info,
 query-only mailto and non-HTTP schemes

---
 readability.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/readability.go b/readability.go
index e6f9d85..158f5c7 100644
--- a/readability.go
+++ b/readability.go
@@ -290,18 +290,22 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		var abs string
 		if u.Scheme != "" {
 			abs += u.Scheme
-			if strings.HasPrefix(u.Scheme, "http") {
+			if strings.HasPrefix(u.Scheme, "http") || u.Scheme == "file" || u.Host != "" {
 				abs += "://"
 			} else {
 				abs += ":"
 			}
 		}
+		if u.User != nil {
+			abs += u.User.String() + "@"
+		}
 		abs += strings.ToLower(u.Host)
 
 		var b, a string
 		if strings.Contains(uri, "?") {
 			before, _, _ := strings.Cut(uri, "?")
-			b = before
+			// the question mark might be part of the fragment
+			b, _, _ = strings.Cut(before, "#")
 		} else if strings.Contains(uri, "#") {
 			before, after, _ := strings.Cut(uri, "#")
 			b = before
@@ -312,17 +316,17 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 
 		if u.Path != "" {
 			p := u.Path
-			if strings.Contains(uri, "%") {
-				if strings.HasPrefix(uri, "//") {
-					p = doubleForwardSlashes.ReplaceAllString(b, "")
+			if strings.Contains(uri, "%") || strings.Contains(baseURI, "%") {
+				if strings.HasPrefix(b, abs) {
+					p = strings.TrimPrefix(b, abs)
 				} else {
-					p = strings.ReplaceAll(b, abs, "")
+					p = u.EscapedPath()
 				}
 			}
 			abs += strings.ReplaceAll(p, "/C|/", "/C:/")
 		} else if u.Opaque != "" {
 			abs += u.Opaque
-		} else {
+		} else if u.Host != "" {
 			abs += "/"
 		}
 		if u.RawQuery != "" {
@@ -331,6 +335,8 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if u.Fragment != "" {
 			if strings.Contains(a, "%") {
 				abs += "#" + a
+			} else if strings.Contains(uri, "%") {
+				abs += "#" + u.EscapedFragment()
 			} else {
 				abs += "#" + u.Fragment
 			}
-- 
2.43.0


From 09b369335d4003b6ad48d630c4ad19a1724dcc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:36 +0000
Subject: [PATCH 11/54] fix: remove javascript links whatever their case and
 blanks

---
 readability.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 158f5c7..e578999 100644
--- a/readability.go
+++ b/readability.go
@@ -31,6 +31,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 const (
@@ -356,7 +357,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if href != "" {
 			// Remove links with javascript: URIs, since
 			// they won't work after scripts have been removed from the page.
-			if strings.HasPrefix(href, "javascript:") {
+			if isJavascriptURI(href) {
 				// if the link only contains simple text content, it can be converted to a text node
 				if len(link.ChildNodes) == 1 && link.ChildNodes[0].NodeType == textNode {
 					var text = r.doc.createTextNode(link.GetTextContent())
@@ -412,6 +413,16 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	}
 }
 
+// Tell whether a browser would run the given URI as a script: the scheme is
+// case-insensitive, leading blanks and any tab or line break are ignored.
+func isJavascriptURI(uri string) bool {
+	uri = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(uri)
+	uri = strings.TrimLeftFunc(uri, func(c rune) bool {
+		return c <= ' ' || unicode.IsSpace(c)
+	})
+	return strings.HasPrefix(strings.ToLower(uri), "javascript:")
+}
+
 func (r *Readability) simplifyNestedElements(articleContent *Node) {
 	var node = articleContent
 	for node != nil {
-- 
2.43.0


From 02e69ec7b0cbabb0e088a2084267f032d12f0e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:42 +0000
Subject: [PATCH 12/54] fix: escape bare '<' in text so that it cannot turn
 into markup

---
 domparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 3c0f083..6ccc534 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1078,7 +1078,8 @@ loop:
 				txt := string(data)
 
 				if c != '<' {
-					textNode.SetInnerHTML(txt)
+					// A bare '<' is text too: never let it open a tag when serialized.
+					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
 					n.AppendChild(textNode)
 				} else if strings.HasPrefix(txt, "<![CDATA[") {
 					s := strings.Index(txt, "<![CDATA[")
-- 
2.43.0


From ab2f91a352f1304e6b23166eb45050eeb87bcef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:48 +0000
Subject: [PATCH 13/54] fix: do not keep a hidden paragraph which is the only
 child of a div

---
 readability.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index e578999..65b7b33 100644
--- a/readability.go
+++ b/readability.go
@@ -958,7 +958,9 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				// element. DIVs with only a P element inside and no text content can be
 				// safely converted into plain P elements to avoid confusing the scoring
 				// algorithm with DIVs with are, in practice, paragraphs.
-				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
+				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 &&
+					// Otherwise it is about to be removed, as soon as it's visited.
+					!isConcealed(n.Children[0]) {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
@@ -2203,6 +2205,13 @@ func isProbablyVisible(n *Node) bool {
 		(!n.HasAttribute("aria-hidden") || n.GetAttribute("aria-hidden") != "true" || (n.GetClassName() != "" && strings.Contains(n.GetClassName(), "fallback-image")))
 }
 
+// Tell whether a node is hidden, a modal dialog or has an unlikely role.
+func isConcealed(n *Node) bool {
+	return !isProbablyVisible(n) ||
+		(n.GetAttribute("aria-modal") == "true" && n.GetAttribute("role") == "dialog") ||
+		slices.Contains(unlinkelyRoles, n.GetAttribute("role"))
+}
+
 // Runs readability.
 // Workflow:
 //  1. Prep the document by removing script tags, css, etc.
-- 
2.43.0


From a283856ce08bcbd6c24dc3d8cb8ec93afe6e55b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:16 +0000
Subject: [PATCH 14/54] fix: do not swallow the markup after a self-closing
 script, iframe, title or the like

---
 domparser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/domparser.go b/domparser.go
index 6ccc534..eaf85be 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1108,6 +1108,9 @@ loop:
 						p.z.NextIsNotRawText()
 					}
 					p.readNode(node)
+				} else {
+					// A self-closing element is empty: what follows isn't its raw text.
+					p.z.NextIsNotRawText()
 				}
 
 				// Only use the first title, because SVG might have other
-- 
2.43.0


From d15fe07287eac22b92d42efa556a107c12510c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:23 +0000
Subject: [PATCH 15/54] fix: close namespaced elements at their own end tag

---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index eaf85be..2994e33 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1130,7 +1130,7 @@ loop:
 			}
 
 		case html.EndTagToken:
-			if n.LocalName == p.z.Token().Data {
+			if n.matchingTag == p.z.Token().Data {
 				break loop
 			}
 		}
-- 
2.43.0


From f960d086c48212c39da415b6523b1c8fa93383b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:29 +0000
Subject: [PATCH 16/54] fix: ignore the whitespace between all the br elements
 of a chain

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 65b7b33..d4d0d8a 100644
--- a/readability.go
+++ b/readability.go
@@ -576,7 +576,7 @@ func (r *Readability) replaceBrs(n *Node) {
 			if _, err := next.ParentNode.RemoveChild(next); err != nil {
 				slog.Error("cannot remove child", slog.String("err", err.Error()))
 			}
-			next = brSibling
+			next = r.nextNode(brSibling)
 		}
 
 		// If we removed a <br> chain, replace the remaining <br> with a <p>. Add
-- 
2.43.0


From f6343d68dfc8862c8e58e0605785dbee6c834494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:12 +0000
Subject: [PATCH 17/54] fix: decode character references in a single pass and
 in the whole Unicode range

---
 domparser.go | 37 +++++++++++++++----------------------
 regexps.go   |  3 +--
 2 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/domparser.go b/domparser.go
index 2994e33..bb124e3 100644
--- a/domparser.go
+++ b/domparser.go
@@ -73,29 +73,22 @@ func encodeHTML(text string) string {
 
 func decodeHTML(s string) (string, error) {
 
-	s = entityReferencesRgx.ReplaceAllStringFunc(s, func(s string) string {
-		return string([]rune(entityReplacer.Replace(s))[1])
-	})
-
-	submatches := htmlCharCodesRgx.FindAllStringSubmatch(s, -1)
-	for _, submatch := range submatches {
-		if len(submatch) == 3 {
-			hex, dec := submatch[1], submatch[2]
-			if hex != "" {
-				codePoint, err := strconv.ParseInt(hex, 16, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			} else if dec != "" {
-				codePoint, err := strconv.ParseInt(dec, 10, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			}
+	// All the references are replaced in one go, so that a decoded character
+	// never becomes part of another reference (e.g. "&amp;#60;" is "&#60;").
+	s = htmlReferencesRgx.ReplaceAllStringFunc(s, func(s string) string {
+		if !strings.HasPrefix(s, "&#") {
+			return string([]rune(entityReplacer.Replace(s))[1])
 		}
-	}
+		base, digits := 10, s[2:len(s)-1]
+		if digits[0] == 'x' || digits[0] == 'X' {
+			base, digits = 16, digits[1:]
+		}
+		codePoint, err := strconv.ParseInt(digits, base, 32)
+		if err != nil || codePoint == 0 || codePoint > utf8.MaxRune {
+			codePoint = utf8.RuneError
+		}
+		return string(rune(codePoint))
+	})
 	return s, nil
 }
 
diff --git a/regexps.go b/regexps.go
index 1a2112e..79c9501 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,8 +36,7 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	entityReferencesRgx  = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
-	htmlCharCodesRgx     = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	htmlReferencesRgx    = regexp.MustCompile(`&(?:quot|amp|apos|lt|gt|#[xX][0-9a-fA-F]+|#[0-9]+);`)
 	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
 	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
 	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
-- 
2.43.0


From 8167e27aaba873922ef12a7ad3fae64bbbe18e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 18/54] fix: keep sibling links consistent when replacing a
 sibling or overwriting the children

---
 domparser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/domparser.go b/domparser.go
index bb124e3..3c822f4 100644
--- a/domparser.go
+++ b/domparser.go
@@ -480,11 +480,18 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 	if childIndex == -1 {
 		panic("removeChild: node not found")
 	} else {
+		// Replacing a node with itself changes nothing.
+		if newNode == oldNode {
+			return oldNode
+		}
 		// This will take care of updating the new node if it was somewhere else before:
 		if newNode.ParentNode != nil {
 			if _, err := newNode.ParentNode.RemoveChild(newNode); err != nil {
 				slog.Error("cannot remove child", slog.String("err", err.Error()))
 			}
+			// The old node may have been shifted, if the new one was among its siblings.
+			childNodes = n.ChildNodes
+			childIndex = indexOf(oldNode, childNodes)
 		}
 		childNodes[childIndex] = newNode
 
@@ -575,6 +582,12 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 	}
 }
 
+// Forget the siblings a node had in a tree it doesn't belong to anymore.
+func (n *Node) unlinkSiblings() {
+	n.PreviousSibling, n.NextSibling = nil, nil
+	n.PreviousElementSibling, n.NextElementSibling = nil, nil
+}
+
 type attribute struct {
 	name, value string
 }
@@ -941,6 +954,7 @@ func (n *Node) SetInnerHTML(html string) {
 		var node = parser.parse(html, "")
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
 			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].unlinkSiblings()
 		}
 		n.ChildNodes = node.ChildNodes
 		n.Children = node.Children
@@ -961,6 +975,7 @@ func (n *Node) SetTextContent(text string) {
 		// clear parentNodes for existing children
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
 			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].unlinkSiblings()
 		}
 
 		var t = newText()
-- 
2.43.0


From ae4e9d992ea6f08b916847110ecfc252621f661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 19/54] fix: score a div with br elements only once when
 guessing if a page is readerable

---
 readerable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readerable.go b/readerable.go
index 0b80443..ddd541f 100644
--- a/readerable.go
+++ b/readerable.go
@@ -68,6 +68,10 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 	if len(brNodes) != 0 {
 		var set []*html.Node
 		for _, n := range brNodes {
+			// Count each <div> once, no matter how many <br> it has.
+			if slices.Contains(set, n.Parent) {
+				continue
+			}
 			set = append(set, n.Parent)
 		}
 		nodes = append(nodes, set...)
-- 
2.43.0


From 4d160d527191574034fa57a59c9c29360260f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:45 +0000
Subject: [PATCH 20/54] fix: match the node itself, not its descendants, when
 skipping paragraphs in list items

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4e0cbe5..e45e1fa 100644
--- a/util.go
+++ b/util.go
@@ -48,7 +48,7 @@ func matches(n *html.Node, query string) bool {
 	if err != nil {
 		return false
 	}
-	return cascadia.Query(n, sel) != nil
+	return sel.Match(n)
 }
 
 func attr(n *html.Node, attrName string) string {
-- 
2.43.0


From 5e265e005652c1e513b5817b5c84813ca47f73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:16 +0000
Subject: [PATCH 21/54] fix: honour the hidden attribute and hidden styles when
 guessing if a page is readerable

---
 readerable.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/readerable.go b/readerable.go
index ddd541f..c6b43c4 100644
--- a/readerable.go
+++ b/readerable.go
@@ -33,12 +33,21 @@ import (
 func isNodeVisible(node *html.Node) bool {
 	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
 	style := attr(node, "style")
-	return (style == "" || !slices.Contains(strings.Split(";", style), "display=none")) &&
-		(style == "" || !slices.Contains(strings.Split(";", style), "visibility=hidden")) &&
-		attr(node, "hidden") == "" &&
+	return (style == "" || !declares(style, "display", "none")) &&
+		(style == "" || !declares(style, "visibility", "hidden")) &&
+		!slices.ContainsFunc(node.Attr, func(a html.Attribute) bool { return a.Key == "hidden" }) &&
 		(attr(node, "aria-hidden") == "" || attr(node, "aria-hidden") != "true" || (attr(node, "class") != "" && strings.Contains(attr(node, "class"), "fallback-image")))
 }
 
+// Tell whether an inline style sets a property to the given keyword.
+func declares(style, property, keyword string) bool {
+	return slices.ContainsFunc(strings.Split(strings.ToLower(style), ";"), func(declaration string) bool {
+		name, value, _ := strings.Cut(declaration, ":")
+		value, _, _ = strings.Cut(value, "!important")
+		return strings.TrimSpace(name) == property && strings.TrimSpace(value) == keyword
+	})
+}
+
 // Decides whether or not the document is reader-able without parsing the whole thing.
 // Options:
 //   - options.minContentLength (default 140), the minimum node content length used to decide if the document is readerable
-- 
2.43.0


From 29afe5f04f231f5d20d56dff5c75c6bc30ac6be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:22 +0000
Subject: [PATCH 22/54] fix: remove the first part of the title when the rest
 of it is what matters

---
 readability.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index d4d0d8a..c52d511 100644
--- a/readability.go
+++ b/readability.go
@@ -474,9 +474,7 @@ func (r *Readability) getArticleTitle() string {
 		// If the resulting title is too short (3 words or fewer), remove
 		// the first part instead:
 		if wordCount(curTitle) < 3 {
-			curTitle = titleFirstPart.ReplaceAllStringFunc(origTitle, func(s string) string {
-				return s
-			})
+			curTitle = titleFirstPart.ReplaceAllString(origTitle, "$1")
 		}
 	} else if strings.Contains(curTitle, ": ") {
 		// Check if we have an heading containing this exact string, so we
-- 
2.43.0


From b9ed808fda84932c03660289205369b76d5de6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:39 +0000
Subject: [PATCH 23/54] fix: keep a hierarchical title when only one word of it
 has been dropped

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index c52d511..94ab89c 100644
--- a/readability.go
+++ b/readability.go
@@ -515,7 +515,7 @@ func (r *Readability) getArticleTitle() string {
 	// the original title.
 	var curTitleWordCount = wordCount(curTitle)
 	if curTitleWordCount <= 4 &&
-		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))) {
+		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))-1) {
 		curTitle = origTitle
 	}
 	return curTitle
-- 
2.43.0


From cb5e0dc5791dbb0e3e8d0fa16daa8c1045c37f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:53 +0000
Subject: [PATCH 24/54] fix: look for an allowed video inside of object
 elements too

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 94ab89c..6c10dd2 100644
--- a/readability.go
+++ b/readability.go
@@ -1820,7 +1820,7 @@ func (r *Readability) clean(e *Node, tag string) {
 			}
 
 			// For embed with <object> tag, check inner HTML as well.
-			if element.TagName == "object" && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
+			if element.TagName == "OBJECT" && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
 				return false
 			}
 		}
@@ -2112,7 +2112,7 @@ func (r *Readability) cleanConditionally(e *Node, tag string) {
 				}
 
 				// For embed with <object> tag, check inner HTML as well.
-				if embeds[i].TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
+				if embeds[i].TagName == "OBJECT" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
 					return false
 				}
 
-- 
2.43.0


From b79fa07bd92308b58b2e9055155bdc754ec9fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 25/54] fix: measure the text thresholds in characters, not in
 bytes

---
 readability.go | 2 +-
 readerable.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 6c10dd2..990e430 100644
--- a/readability.go
+++ b/readability.go
@@ -1262,7 +1262,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// grabArticle with different flags set. This gives us a higher likelihood of
 		// finding the content, and the sieve approach gives us a higher likelihood of
 		// finding the -right- content.
-		var textLength = len(r.getInnerText(articleContent, true))
+		var textLength = len([]rune(r.getInnerText(articleContent, true)))
 		if textLength < r.options.charThreshold {
 			parseSuccessful = false
 			page.SetInnerHTML(pageCacheHtml)
diff --git a/readerable.go b/readerable.go
index c6b43c4..9405d78 100644
--- a/readerable.go
+++ b/readerable.go
@@ -104,7 +104,7 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 			return false
 		}
 
-		var textContentLength = len(strings.TrimSpace(textContent(n)))
+		var textContentLength = len([]rune(strings.TrimSpace(textContent(n))))
 		if textContentLength < options.minContentLength {
 			return false
 		}
-- 
2.43.0


From b18aa621812339eaaec0922190746d8b5d55cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:37 +0000
Subject: [PATCH 26/54] fix: filter the nodes of a body which is not inside of
 an html element

---
 readability.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readability.go b/readability.go
index 990e430..a233aeb 100644
--- a/readability.go
+++ b/readability.go
@@ -855,6 +855,10 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// used inappropriately (as in, where they contain no other block level elements.)
 		var elementsToScore []*Node
 		var n = r.doc.DocumentElement
+		// The html element is optional: without it, start from the page itself.
+		if n == nil || !r.hasAncestorTag(page, "html", -1, nil) {
+			n = page
+		}
 
 		var shouldRemoveTitleHeader bool = true
 
-- 
2.43.0


From b2843adeef67f834c724c071aadfe741d6be81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:41 +0000
Subject: [PATCH 27/54] fix: keep the separators of a srcset when its uris are
 made absolute

---
 readability.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/readability.go b/readability.go
index a233aeb..1d3a74f 100644
--- a/readability.go
+++ b/readability.go
@@ -399,16 +399,12 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		}
 		var srcset = media.GetAttribute("srcset")
 		if srcset != "" {
-			submatches := srcsetUrl.FindAllStringSubmatch(srcset, -1)
-			var newSrcset []string
-			for _, submatch := range submatches {
-				newSrcset = append(newSrcset, toAbsoluteURI(submatch[1])+submatch[2]+submatch[3])
-			}
-			if !strings.Contains(srcset, ", ") {
-				media.SetAttribute("srcset", strings.Join(newSrcset, ""))
-			} else {
-				media.SetAttribute("srcset", strings.Join(newSrcset, " "))
-			}
+			// Keep whatever separates the candidates: without a blank after it, a
+			// comma would become part of the uri.
+			media.SetAttribute("srcset", srcsetUrl.ReplaceAllStringFunc(srcset, func(candidate string) string {
+				submatch := srcsetUrl.FindStringSubmatch(candidate)
+				return toAbsoluteURI(submatch[1]) + submatch[2] + submatch[3]
+			}))
 		}
 	}
 }
-- 
2.43.0


From 823c38a4fbc1472aaf0be65b259d6c0cf2883a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:27 +0000
Subject: [PATCH 28/54] fix: do not parse the content of a script as markup

---
 domparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 3c822f4..92c23af 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1112,7 +1112,9 @@ loop:
 				// If this isn't a void Element, read its child nodes
 				var localName = node.LocalName
 				if tt == html.StartTagToken {
-					if slices.Contains([]string{"script", "noscript"}, localName) {
+					// A noscript holds markup. A script doesn't: any "<" in it would open
+					// an element which swallows the rest of the document.
+					if localName == "noscript" {
 						p.z.NextIsNotRawText()
 					}
 					p.readNode(node)
-- 
2.43.0


From 9b31517e9c0aa54a90eb1d5d6e7026fa2f91d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:43 +0000
Subject: [PATCH 29/54] fix: do not decode character references before JSON-LD
 is unmarshalled

---
 readability.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 1d3a74f..2d165e3 100644
--- a/readability.go
+++ b/readability.go
@@ -1340,6 +1340,20 @@ type metadata struct {
 	publishedTime string
 }
 
+// Get the text of a script as it was written: character references in it are
+// not decoded, for a decoded quote would put an end to the JSON string it is in.
+func (r *Readability) getRawText(script *Node) string {
+	var text strings.Builder
+	for _, child := range script.ChildNodes {
+		if child.NodeType == textNode && child.innerHTML != "" {
+			text.WriteString(strings.ReplaceAll(child.innerHTML, "&lt;", "<"))
+		} else {
+			text.WriteString(child.GetTextContent())
+		}
+	}
+	return text.String()
+}
+
 // Try to extract metadata from JSON-LD object.
 // For now, only Schema.org objects of type Article or its subtypes are supported.
 func (r *Readability) getJSONLD(doc *Node) *metadata {
@@ -1351,7 +1365,7 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 	for _, jsonLdElement := range scripts {
 		if meta == nil && jsonLdElement.GetAttribute("type") == "application/ld+json" {
 			// Strip CDATA markers if present
-			var content = cdata.ReplaceAllString(jsonLdElement.GetTextContent(), "")
+			var content = cdata.ReplaceAllString(r.getRawText(jsonLdElement), "")
 			var parsed map[string]interface{}
 			if err := json.Unmarshal([]byte(content), &parsed); err != nil {
 				slog.Error("cannot unmarshal JSON-LD element content", "err", err)
-- 
2.43.0


From 0d128a325bb2e8a639da6776206f851c1077e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:49 +0000
Subject: [PATCH 30/54] fix: ignore metadata tags with a blank content

---
 readability.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 2d165e3..b440a83 100644
--- a/readability.go
+++ b/readability.go
@@ -1506,7 +1506,7 @@ func (r *Readability) getArticleMetadata(jsonld *metadata) *metadata {
 	for _, element := range metaElements {
 		var elementName = element.GetAttribute("name")
 		var elementProperty = element.GetAttribute("property")
-		var content = element.GetAttribute("content")
+		var content = strings.TrimSpace(element.GetAttribute("content"))
 		if content == "" {
 			continue
 		}
@@ -1521,7 +1521,7 @@ func (r *Readability) getArticleMetadata(jsonld *metadata) *metadata {
 				// so we can match below.
 				name = singleWhitespace.ReplaceAllString(strings.ToLower(matches[0]), "")
 				// multiple authors
-				values[name] = strings.TrimSpace(content)
+				values[name] = content
 			}
 		}
 
@@ -1532,7 +1532,7 @@ func (r *Readability) getArticleMetadata(jsonld *metadata) *metadata {
 				// to colons so we can match below.
 				name = singleWhitespace.ReplaceAllString(strings.ToLower(name), "")
 				name = singleDot.ReplaceAllString(name, ":")
-				values[name] = strings.TrimSpace(content)
+				values[name] = content
 
 			}
 		}
-- 
2.43.0


From 1c93ca8aa342ce95aae0728b240a3480ad8cef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:56 +0000
Subject: [PATCH 31/54] fix: trim the title of a JSON-LD object with both a
 name and a headline

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index b440a83..cc6c21c 100644
--- a/readability.go
+++ b/readability.go
@@ -1419,9 +1419,9 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				var headlineMatchs = r.textSimilarity(headline.(string), title) > 0.75
 
 				if headlineMatchs && !nameMatches {
-					meta.title = headline.(string)
+					meta.title = strings.TrimSpace(headline.(string))
 				} else {
-					meta.title = name.(string)
+					meta.title = strings.TrimSpace(name.(string))
 				}
 			} else if _, ok := name.(string); ok {
 				meta.title = strings.TrimSpace(name.(string))
-- 
2.43.0


From f0f4cdc4a5ed8d5428dc3e953e21156fd05ccb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:46 +0000
Subject: [PATCH 32/54] fix: keep a text which starts with a bare less-than
 sign

---
 domparser.go | 8 +++++++-
 regexps.go   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 92c23af..10e97c8 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1056,6 +1056,12 @@ func (p *domParser) makeElementNode() *Node {
 	return node
 }
 
+// Tells whether the less-than sign at the start of the given text is just a
+// character of it, for what follows can be neither a tag nor a declaration.
+func isBareLessThan(txt string) bool {
+	return len(txt) == 1 || !markupStart.MatchString(txt[1:])
+}
+
 // Reads the next child node from the input. If we're reading a closing
 // tag, or if we've reached the end of input, return null. Returns the node
 func (p *domParser) readNode(n *Node) {
@@ -1085,7 +1091,7 @@ loop:
 				c, _ := utf8.DecodeRune(data)
 				txt := string(data)
 
-				if c != '<' {
+				if c != '<' || isBareLessThan(txt) {
 					// A bare '<' is text too: never let it open a tag when serialized.
 					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
 					n.AppendChild(textNode)
diff --git a/regexps.go b/regexps.go
index 79c9501..f7e42a0 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,6 +36,7 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
+	markupStart          = regexp.MustCompile(`^[a-zA-Z/!?]`)
 	htmlReferencesRgx    = regexp.MustCompile(`&(?:quot|amp|apos|lt|gt|#[xX][0-9a-fA-F]+|#[0-9]+);`)
 	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
 	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
-- 
2.43.0


From e360467e11443e3985d3eecc64ef1b8ac272a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:50 +0000
Subject: [PATCH 33/54] fix: a table with a caption is a data table, one with a
 nested table is not

---
 readability.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readability.go b/readability.go
index cc6c21c..3120ce3 100644
--- a/readability.go
+++ b/readability.go
@@ -1933,6 +1933,7 @@ func (r *Readability) markDataTables(root *Node) {
 
 		if captions := table.getElementsByTagName("caption"); len(captions) > 0 && captions[0] != nil && len(captions[0].ChildNodes) > 0 {
 			table.ReadabilityDataTable = &readabilityDataTable{value: true}
+			continue
 		}
 
 		// If the table has a descendant with any of these tags, consider a data table:
@@ -1951,6 +1952,7 @@ func (r *Readability) markDataTables(root *Node) {
 		// Nested tables indicate a layout table:
 		if tables := table.getElementsByTagName("table"); len(tables) > 0 && tables[0] != nil {
 			table.ReadabilityDataTable = &readabilityDataTable{value: false}
+			continue
 		}
 
 		var rows, columns = r.getRowAndColumnCount(table)
-- 
2.43.0


From 91a7a008fa4ac9f2c688a007d58fd31d0144c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:11 +0000
Subject: [PATCH 34/54] fix: a replaced placeholder does not override the
 address of its noscript fallback

---
 readability.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readability.go b/readability.go
index 3120ce3..55de71e 100644
--- a/readability.go
+++ b/readability.go
@@ -2017,6 +2017,10 @@ func (r *Readability) fixLazyImages(root *Node) {
 			if attr.name == "src" || attr.name == "srcset" || attr.name == "alt" {
 				continue
 			}
+			// The attributes of an image replaced by its <noscript> fallback are kept for reference only.
+			if strings.HasPrefix(attr.name, "data-old-") {
+				continue
+			}
 			var copyTo string
 			if imgExtensionsWithSpacesAndNum.MatchString(attr.value) {
 				copyTo = "srcset"
-- 
2.43.0


From f67c7685aecc265601461e7733ac9ea77e8a300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:03 +0000
Subject: [PATCH 35/54] fix: a byline alone in a div is a byline too

---
 readability.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/readability.go b/readability.go
index 55de71e..a11892a 100644
--- a/readability.go
+++ b/readability.go
@@ -962,6 +962,11 @@ func (r *Readability) grabArticle(page *Node) *Node {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
+					// It isn't going to be visited again: check to see if it's a byline now.
+					if r.checkByline(n, n.GetClassName()+" "+n.GetId()) {
+						n = r.removeAndGetNext(n)
+						continue
+					}
 					elementsToScore = append(elementsToScore, n)
 				} else if !r.hasChildBlockElement(n) {
 					n = r.setNodeTag(n, "P")
-- 
2.43.0


From d76deb29a38fb65775cba69ad58c106679d890cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:55 +0000
Subject: [PATCH 36/54] fix: keep the text direction of a page which needs
 every pass

---
 readability.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index a11892a..20750e4 100644
--- a/readability.go
+++ b/readability.go
@@ -1262,6 +1262,10 @@ func (r *Readability) grabArticle(page *Node) *Node {
 
 		var parseSuccessful = true
 
+		// Resetting the page below detaches the top candidate from its ancestors.
+		var ancestors = []*Node{parentOfTopCandidate, topCandidate}
+		ancestors = append(ancestors, r.getNodeAncestors(parentOfTopCandidate, 0)...)
+
 		// Now that we've gone through the full algorithm, check to see if
 		// we got any meaningful content. If we didn't, we may need to re-run
 		// grabArticle with different flags set. This gives us a higher likelihood of
@@ -1298,8 +1302,6 @@ func (r *Readability) grabArticle(page *Node) *Node {
 
 		if parseSuccessful {
 			// Find out text direction from ancestors of final top candidate.
-			var ancestors = []*Node{parentOfTopCandidate, topCandidate}
-			ancestors = append(ancestors, r.getNodeAncestors(parentOfTopCandidate, 0)...)
 			r.someNode(ancestors, func(ancestor *Node) bool {
 				if ancestor.TagName == "" {
 					return false
-- 
2.43.0


From 123f45a395d22f2705c7476996820a74fadd8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:28 +0000
Subject: [PATCH 37/54] fix: a heading without ASCII words is not a duplicate
 of the title

---
 readability.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 20750e4..b582431 100644
--- a/readability.go
+++ b/readability.go
@@ -776,14 +776,15 @@ func (r *Readability) getNextNode(n *Node, ignoreSelfAndKids bool) *Node {
 // Works the way that it splits both texts into words and then finds words that are unique in second text
 // the result is given by the lower length of unique parts.
 func (r *Readability) textSimilarity(textA, textB string) float64 {
-	var tokensA = tokenize.Split(strings.ToLower(textA), -1)
-	var tokensB = tokenize.Split(strings.ToLower(textB), -1)
+	isEmpty := func(t string) bool { return t == "" }
+	var tokensA = slices.DeleteFunc(tokenize.Split(strings.ToLower(textA), -1), isEmpty)
+	var tokensB = slices.DeleteFunc(tokenize.Split(strings.ToLower(textB), -1), isEmpty)
 	if len(tokensA) == 0 || len(tokensB) == 0 {
 		return 0
 	}
 	var uniqTokensB []string
 	for _, t := range tokensB {
-		if !slices.Contains(tokensA, t) && t != "" {
+		if !slices.Contains(tokensA, t) {
 			uniqTokensB = append(uniqTokensB, t)
 		}
 	}
-- 
2.43.0


From d3e952464bde9afa1be19a874c7308aa10435374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:46 +0000
Subject: [PATCH 38/54] fix: text followed by a blank beside a single element
 is content, do not drop it

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index f7e42a0..224fdb9 100644
--- a/regexps.go
+++ b/regexps.go
@@ -19,7 +19,7 @@ var (
 	//prevLink             = regexp.MustCompile(`(prev|earl|old|new|<|«)`)
 	tokenize   = regexp.MustCompile(`\W+`)
 	whitespace = regexp.MustCompile(`^\s*$`)
-	hasContent = regexp.MustCompile(`\S$`)
+	hasContent = regexp.MustCompile(`[^\s\p{Z}]`)
 	hashUrl    = regexp.MustCompile(`^#.+`)
 	srcsetUrl  = regexp.MustCompile(`(\S+)(\s+[\d.]+[xw])?(\s*(?:,|$))`)
 	b64DataUrl = regexp.MustCompile(`(?i)^data:\s*([^\s;,]+)\s*;\s*base64\s*,`)
-- 
2.43.0


From eef0e9d521f8c0df28feb263e66efc114e613dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:46 +0000
Subject: [PATCH 39/54] fix: an element with an image beside nested line breaks
 is not without content

---
 readability.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index b582431..ce88f5a 100644
--- a/readability.go
+++ b/readability.go
@@ -1706,7 +1706,9 @@ func (r *Readability) hasSingleTagInsideElement(element *Node, tag string) bool
 func (r *Readability) isElementWithoutContent(n *Node) bool {
 	return n.NodeType == elementNode &&
 		len([]rune(strings.TrimSpace(n.GetTextContent()))) == 0 &&
-		(len(n.Children) == 0 || len(n.Children) == len(n.getElementsByTagName("br"))+len(n.getElementsByTagName("hr")))
+		r.everyNode(n.Children, func(child *Node) bool {
+			return child.TagName == "BR" || child.TagName == "HR"
+		})
 }
 
 // Determine whether element has any children block level elements.
-- 
2.43.0


From 0313fee51e360a675f02badc0768717af5769aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:46 +0000
Subject: [PATCH 40/54] fix: no-break spaces between line breaks are blanks,
 too

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 224fdb9..34c938d 100644
--- a/regexps.go
+++ b/regexps.go
@@ -18,7 +18,7 @@ var (
 	//nextLink             = regexp.MustCompile(`(?i)(next|weiter|continue|>([^\|]|$)|»([^\|]|$))`)
 	//prevLink             = regexp.MustCompile(`(prev|earl|old|new|<|«)`)
 	tokenize   = regexp.MustCompile(`\W+`)
-	whitespace = regexp.MustCompile(`^\s*$`)
+	whitespace = regexp.MustCompile(`^[\s\p{Z}]*$`)
 	hasContent = regexp.MustCompile(`[^\s\p{Z}]`)
 	hashUrl    = regexp.MustCompile(`^#.+`)
 	srcsetUrl  = regexp.MustCompile(`(\S+)(\s+[\d.]+[xw])?(\s*(?:,|$))`)
-- 
2.43.0


From f7cadb16140984b40ce84ecd9ffbbbcd4927413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:46 +0000
Subject: [PATCH 41/54] fix: text densities are shares of characters, not of
 bytes

---
 readability.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/readability.go b/readability.go
index ce88f5a..99c1182 100644
--- a/readability.go
+++ b/readability.go
@@ -2055,7 +2055,7 @@ func (r *Readability) fixLazyImages(root *Node) {
 }
 
 func (r *Readability) getTextDensity(e *Node, tags ...string) float64 {
-	var textLength = len(r.getInnerText(e, true))
+	var textLength = len([]rune(r.getInnerText(e, true)))
 	if textLength == 0 {
 		return 0
 	}
@@ -2063,7 +2063,7 @@ func (r *Readability) getTextDensity(e *Node, tags ...string) float64 {
 	var childrenLength = 0
 	var children = r.getAllNodesWithTag(e, tags...)
 	for _, child := range children {
-		childrenLength += len(r.getInnerText(child, true))
+		childrenLength += len([]rune(r.getInnerText(child, true)))
 	}
 	return float64(childrenLength) / float64(textLength)
 }
@@ -2092,9 +2092,9 @@ func (r *Readability) cleanConditionally(e *Node, tag string) {
 			var listLength = 0
 			var listNodes = r.getAllNodesWithTag(n, "ul", "ol")
 			for _, list := range listNodes {
-				listLength += len(r.getInnerText(list, true))
+				listLength += len([]rune(r.getInnerText(list, true)))
 			}
-			isList = float64(listLength)/float64(len(r.getInnerText(n, true))) > 0.9
+			isList = float64(listLength)/float64(len([]rune(r.getInnerText(n, true)))) > 0.9
 		}
 
 		if tag == "table" && isDataTable(n) {
-- 
2.43.0


From cc5609b4a101477efb55dacba2ae0cd48bfd7783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:15 +0000
Subject: [PATCH 42/54] fix: take the direction from the attempt that is
 returned

When every attempt falls short of the threshold the longest one is
returned, but the text direction was read from the ancestors of the last
attempt, which may have picked a different part of the page.
---
 readability.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/readability.go b/readability.go
index 99c1182..2de1460 100644
--- a/readability.go
+++ b/readability.go
@@ -92,6 +92,7 @@ type Readability struct {
 type attempt struct {
 	articleContent *Node
 	textLength     int
+	ancestors      []*Node
 }
 
 // New is the public constructor of Readability and it supports the following options:
@@ -1279,15 +1280,15 @@ func (r *Readability) grabArticle(page *Node) *Node {
 
 			if r.flagIsActive(flagStripUnlikelys) {
 				r.removeFlag(flagStripUnlikelys)
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, ancestors: ancestors})
 			} else if r.flagIsActive(flagWeightClasses) {
 				r.removeFlag(flagWeightClasses)
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, ancestors: ancestors})
 			} else if r.flagIsActive(flagCleanConditionally) {
 				r.removeFlag(flagCleanConditionally)
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, ancestors: ancestors})
 			} else {
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, ancestors: ancestors})
 				// No luck after removing flags, just return the longest text we found during the different loops
 				slices.SortFunc(r.attempts, func(a, b *attempt) int {
 					return b.textLength - a.textLength
@@ -1297,6 +1298,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 					return nil
 				}
 				articleContent = r.attempts[0].articleContent
+				ancestors = r.attempts[0].ancestors
 				parseSuccessful = true
 			}
 		}
-- 
2.43.0


From adee9fcfe3c475ec7babc4fd02a066ce9230f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:45 +0000
Subject: [PATCH 43/54] fix: read inline styles as CSS does

The first declaration of a property won over later ones, and an important
one written as "! important" or next to a comment was not recognised, so
that hidden text was taken for visible (style="display:block;display:none")
and the other way round.
---
 domparser.go  | 13 +------------
 readerable.go | 13 ++-----------
 regexps.go    |  1 +
 util.go       | 19 +++++++++++++++++++
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/domparser.go b/domparser.go
index 10e97c8..f6739c5 100644
--- a/domparser.go
+++ b/domparser.go
@@ -810,18 +810,7 @@ func (s *style) getStyle(jsName string) string {
 		return ""
 	}
 
-	var styles = strings.Split(attr, ";")
-	for i := 0; i < len(styles); i++ {
-		var style = strings.Split(styles[i], ":")
-		// CSS property names and keywords are case-insensitive.
-		var name = strings.ToLower(strings.TrimSpace(style[0]))
-		// A declaration without a value (e.g. style="display") sets nothing.
-		if name == cssName && len(style) > 1 {
-			var value, _, _ = strings.Cut(strings.ToLower(style[1]), "!important")
-			return strings.TrimSpace(value)
-		}
-	}
-	return ""
+	return declared(attr, cssName)
 }
 
 /*
diff --git a/readerable.go b/readerable.go
index 9405d78..9f5b536 100644
--- a/readerable.go
+++ b/readerable.go
@@ -33,21 +33,12 @@ import (
 func isNodeVisible(node *html.Node) bool {
 	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
 	style := attr(node, "style")
-	return (style == "" || !declares(style, "display", "none")) &&
-		(style == "" || !declares(style, "visibility", "hidden")) &&
+	return (style == "" || declared(style, "display") != "none") &&
+		(style == "" || declared(style, "visibility") != "hidden") &&
 		!slices.ContainsFunc(node.Attr, func(a html.Attribute) bool { return a.Key == "hidden" }) &&
 		(attr(node, "aria-hidden") == "" || attr(node, "aria-hidden") != "true" || (attr(node, "class") != "" && strings.Contains(attr(node, "class"), "fallback-image")))
 }
 
-// Tell whether an inline style sets a property to the given keyword.
-func declares(style, property, keyword string) bool {
-	return slices.ContainsFunc(strings.Split(strings.ToLower(style), ";"), func(declaration string) bool {
-		name, value, _ := strings.Cut(declaration, ":")
-		value, _, _ = strings.Cut(value, "!important")
-		return strings.TrimSpace(name) == property && strings.TrimSpace(value) == keyword
-	})
-}
-
 // Decides whether or not the document is reader-able without parsing the whole thing.
 // Options:
 //   - options.minContentLength (default 140), the minimum node content length used to decide if the document is readerable
diff --git a/regexps.go b/regexps.go
index 34c938d..d056aa4 100644
--- a/regexps.go
+++ b/regexps.go
@@ -17,6 +17,7 @@ var (
 	shareElements = regexp.MustCompile(`(?i)(\b|_)(share|sharedaddy)(\b|_)`)
 	//nextLink             = regexp.MustCompile(`(?i)(next|weiter|continue|>([^\|]|$)|»([^\|]|$))`)
 	//prevLink             = regexp.MustCompile(`(prev|earl|old|new|<|«)`)
+	cssComment = regexp.MustCompile(`(?s)/\*.*?\*/`)
 	tokenize   = regexp.MustCompile(`\W+`)
 	whitespace = regexp.MustCompile(`^[\s\p{Z}]*$`)
 	hasContent = regexp.MustCompile(`[^\s\p{Z}]`)
diff --git a/util.go b/util.go
index e45e1fa..413424d 100644
--- a/util.go
+++ b/util.go
@@ -3,6 +3,7 @@ package readability
 import (
 	"bytes"
 	"slices"
+	"strings"
 
 	"github.com/andybalholm/cascadia"
 	"golang.org/x/net/html"
@@ -35,6 +36,24 @@ func anyOf(strings ...string) string {
 	return ""
 }
 
+// The value which an inline style gives to a property, in lower case as CSS keywords are
+// case-insensitive: that of the last declaration with a value, unless an important one precedes it.
+func declared(style, property string) string {
+	var value string
+	var important bool
+	for _, declaration := range strings.Split(cssComment.ReplaceAllString(style, " "), ";") {
+		name, v, _ := strings.Cut(strings.ToLower(declaration), ":")
+		v, priority, _ := strings.Cut(v, "!")
+		v = strings.TrimSpace(v)
+		isImportant := strings.TrimSpace(priority) == "important"
+		if strings.TrimSpace(name) != property || v == "" || (important && !isImportant) {
+			continue
+		}
+		value, important = v, isImportant
+	}
+	return value
+}
+
 func querySelectorAll(n *html.Node, query string) []*html.Node {
 	sel, err := cascadia.ParseGroup(query)
 	if err != nil {
-- 
2.43.0


From ae10517ab5e312b79553f3d6a3f68248437b740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:53 +0000
Subject: [PATCH 44/54] fix: recognise image addresses whatever the case of the
 extension

An image whose lazy-loading attribute or noscript fallback named a .JPG
file lost its address and was dropped.
---
 regexps.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regexps.go b/regexps.go
index d056aa4..8abd248 100644
--- a/regexps.go
+++ b/regexps.go
@@ -48,8 +48,8 @@ var (
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
-	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
+	imgExtensions                 = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)`)
 	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
-	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
-	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
+	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)\s+\d`)
+	imgExtensionsAmongText        = regexp.MustCompile(`(?i)^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From bd324872aa8433647fcabed32197310237ef3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:47 +0000
Subject: [PATCH 45/54] fix: take the base of the page from the first base
 element with an address

A base element with a target only, as in <base target="_blank"/>, hid the
one with the address.
---
 domparser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index f6739c5..0f01335 100644
--- a/domparser.go
+++ b/domparser.go
@@ -705,8 +705,9 @@ func (d *Node) getBaseURI() string {
 	if d.baseURI == "" {
 		d.baseURI = d.DocumentURI
 		baseElements := d.getElementsByTagName("base")
-		if len(baseElements) != 0 {
-			href := baseElements[0].GetAttribute("href")
+		// A base without an address (e.g. with a target only) doesn't count.
+		if i := slices.IndexFunc(baseElements, func(n *Node) bool { return n.HasAttribute("href") }); i != -1 {
+			href := baseElements[i].GetAttribute("href")
 			if href != "" {
 				base, err := url.Parse(d.baseURI)
 				if err != nil {
-- 
2.43.0


From a2233584f18272936bdd95538f0d6d8e0c87a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:14 +0000
Subject: [PATCH 46/54] fix: ignore blanks around the address of the base
 element

They are ignored around any other address, here they made it unparsable
and the base was not used.
---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 0f01335..a79bb0a 100644
--- a/domparser.go
+++ b/domparser.go
@@ -707,7 +707,7 @@ func (d *Node) getBaseURI() string {
 		baseElements := d.getElementsByTagName("base")
 		// A base without an address (e.g. with a target only) doesn't count.
 		if i := slices.IndexFunc(baseElements, func(n *Node) bool { return n.HasAttribute("href") }); i != -1 {
-			href := baseElements[i].GetAttribute("href")
+			href := strings.TrimSpace(baseElements[i].GetAttribute("href"))
 			if href != "" {
 				base, err := url.Parse(d.baseURI)
 				if err != nil {
-- 
2.43.0


From acee959ceac30db6e8ce2c227c07213a07cc4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:19 +0000
Subject: [PATCH 47/54] fix: refuse an unknown output format

A misspelt format, as in -o htlm, was silently taken for text.
---
 cmd/readability/readability.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/readability/readability.go b/cmd/readability/readability.go
index 1750df4..620a4a8 100644
--- a/cmd/readability/readability.go
+++ b/cmd/readability/readability.go
@@ -39,6 +39,10 @@ func main() {
 		slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
 	}
 
+	if output != "text" && output != "html" {
+		exit(fmt.Sprintf("unknown output format: %q", output))
+	}
+
 	url := flag.Arg(0)
 	if url == "" {
 		exit("missing url")
-- 
2.43.0


From e89fa30ef0314149bc6a3053f72b064d52847804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:20 +0000
Subject: [PATCH 48/54] fix: resolve links against the address a redirect leads
 to

The relative addresses of the article were resolved against the address
given on the command line even if the page came from another one.
---
 cmd/readability/readability.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/readability/readability.go b/cmd/readability/readability.go
index 620a4a8..852da60 100644
--- a/cmd/readability/readability.go
+++ b/cmd/readability/readability.go
@@ -54,7 +54,8 @@ func main() {
 	bs, err := io.ReadAll(resp.Body)
 	handle(err)
 
-	parser, err := readability.New(string(bs), url)
+	// After a redirect, the links of the page are relative to where it was found.
+	parser, err := readability.New(string(bs), resp.Request.URL.String())
 	handle(err)
 
 	res, err := parser.Parse()
-- 
2.43.0


From 11d3bcbd9d9c9077ea4ef92e534129a06a52b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:21 +0000
Subject: [PATCH 49/54] fix: report an article which could not be written

With a full disk the article was cut short and the command still exited
with status 0. The message goes to standard error, as standard output may
be what fails.
---
 cmd/readability/readability.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/readability/readability.go b/cmd/readability/readability.go
index 852da60..75b7bdd 100644
--- a/cmd/readability/readability.go
+++ b/cmd/readability/readability.go
@@ -23,7 +23,7 @@ func handle(err error) {
 }
 
 func exit(msg string) {
-	fmt.Println(msg)
+	fmt.Fprintln(os.Stderr, msg)
 	os.Exit(1)
 }
 
@@ -62,8 +62,9 @@ func main() {
 	handle(err)
 
 	if output == "html" {
-		fmt.Print(res.HTMLContent)
+		_, err = fmt.Print(res.HTMLContent)
 	} else {
-		fmt.Print(res.TextContent)
+		_, err = fmt.Print(res.TextContent)
 	}
+	handle(err)
 }
-- 
2.43.0


From 952649a5190dda9faf7e39e22163f16443c7b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:37 +0000
Subject: [PATCH 50/54] fix: decode every character reference in text

Only the five references of XML and the numeric ones were decoded, so that
TextContent, Title, Byline and Excerpt showed others as they are written
(caf&eacute;, &nbsp;, &rsquo;), while a reader of HTMLContent gets the
character.
---
 domparser.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/domparser.go b/domparser.go
index a79bb0a..487208e 100644
--- a/domparser.go
+++ b/domparser.go
@@ -635,11 +635,7 @@ func newText() *Node {
 func (t *Node) getTextContentFromTextNode() string {
 	// An empty text node has nothing to decode (and decoding would recurse forever).
 	if t.textContent == "" && t.innerHTML != "" {
-		decoded, err := decodeHTML(t.GetInnerHTML())
-		if err != nil {
-			slog.Error("cannot decode inner html", "err", err)
-			return ""
-		}
+		decoded := html.UnescapeString(t.GetInnerHTML())
 		t.textContent = decoded
 	}
 	return t.textContent
-- 
2.43.0


From 9aeb68ca3adeb6688f2d5dc994806a041053002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:13 +0000
Subject: [PATCH 51/54] fix: drop javascript addresses of areas and of links in
 drawings

Only the href of an a element was looked at: <area href="javascript:..."> and
<svg><a xlink:href="javascript:..."> stayed in the content.
---
 readability.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/readability.go b/readability.go
index 2de1460..1f1814b 100644
--- a/readability.go
+++ b/readability.go
@@ -352,6 +352,17 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		return abs
 	}
 
+	// What else leads somewhere (an area of an image map, a link in a drawing)
+	// must not run scripts either.
+	for _, element := range r.getAllNodesWithTag(articleContent, "*") {
+		if isJavascriptURI(element.GetAttribute("xlink:href")) {
+			element.RemoveAttribute("xlink:href")
+		}
+		if element.TagName != "A" && isJavascriptURI(element.GetAttribute("href")) {
+			element.RemoveAttribute("href")
+		}
+	}
+
 	var links = r.getAllNodesWithTag(articleContent, "a")
 	for _, link := range links {
 		var href = link.GetAttribute("href")
-- 
2.43.0


From f8cfe038f083ce29ad6398f0c6c835434e16f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 52/54] fix: put the text for the logs together only if it is
 logged

The text of every ancestor of every paragraph was built for debug messages
which are seldom written: 12000 short paragraphs (360 KB) took half a minute.
---
 readability.go | 12 ++++++------
 util.go        | 10 ++++++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/readability.go b/readability.go
index 1f1814b..29f4d4d 100644
--- a/readability.go
+++ b/readability.go
@@ -873,7 +873,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 
 		for n != nil {
 
-			slog.Debug("elementsToScore", "nodeText", n.GetTextContent())
+			slog.Debug("elementsToScore", "nodeText", loggedText{n})
 
 			if n.TagName == "HTML" {
 				r.articleLang = n.GetAttribute("lang")
@@ -1050,7 +1050,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 					scoreDivider = level * 3
 				}
 				ancestor.ReadabilityNode.ContentScore += contentScore / float64(scoreDivider)
-				slog.Debug("assigned score", "ancestor", ancestor.GetTextContent(), "score", ancestor.ReadabilityNode.ContentScore)
+				slog.Debug("assigned score", "ancestor", loggedText{ancestor}, "score", ancestor.ReadabilityNode.ContentScore)
 			}
 		}
 
@@ -1066,7 +1066,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var candidateScore = candidate.ReadabilityNode.ContentScore * (1 - r.getLinkDensity(candidate))
 			candidate.ReadabilityNode.ContentScore = candidateScore
 
-			slog.Debug("grabArticle", "candidate", candidate.GetTextContent(), "scaled-score", candidateScore)
+			slog.Debug("grabArticle", "candidate", loggedText{candidate}, "scaled-score", candidateScore)
 
 			for t := 0; t < r.options.nbTopCandidates; t++ {
 				var aTopCandidate *Node
@@ -1199,7 +1199,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var sibling = siblings[s]
 			var append = false
 
-			slog.Debug("Looking at sibling node:", "sibling", sibling.GetTextContent(), "score", sibling.ReadabilityNode)
+			slog.Debug("Looking at sibling node:", "sibling", loggedText{sibling}, "score", sibling.ReadabilityNode)
 
 			if sibling == topCandidate {
 				append = true
@@ -1227,11 +1227,11 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			}
 
 			if append {
-				slog.Debug("appending", "node", sibling.GetTextContent())
+				slog.Debug("appending", "node", loggedText{sibling})
 				if !slices.Contains(alterToDiveExceptions, sibling.GetNodeName()) {
 					// We have a node that isn't a common block level element, like a form or td tag.
 					// Turn it into a div so it doesn't get filtered out later by accident.
-					slog.Debug("altering", "node", sibling.GetTextContent())
+					slog.Debug("altering", "node", loggedText{sibling})
 
 					sibling = r.setNodeTag(sibling, "DIV")
 				}
diff --git a/util.go b/util.go
index 413424d..29fde55 100644
--- a/util.go
+++ b/util.go
@@ -2,6 +2,7 @@ package readability
 
 import (
 	"bytes"
+	"log/slog"
 	"slices"
 	"strings"
 
@@ -54,6 +55,15 @@ func declared(style, property string) string {
 	return value
 }
 
+// The text of a node for the logs, put together only when it is going to be written.
+type loggedText struct {
+	node *Node
+}
+
+func (t loggedText) LogValue() slog.Value {
+	return slog.StringValue(t.node.GetTextContent())
+}
+
 func querySelectorAll(n *html.Node, query string) []*html.Node {
 	sel, err := cascadia.ParseGroup(query)
 	if err != nil {
-- 
2.43.0


From 54c814d4cc6642bb5bb2c10cdc032d5f356c047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:23 +0000
Subject: [PATCH 53/54] fix: look at the text of nested elements once when
 searching an image

The text of every level was put together again: the time for noscript elements
in each other grew with the cube of their number.
---
 readability.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 29f4d4d..d5868ae 100644
--- a/readability.go
+++ b/readability.go
@@ -1619,10 +1619,17 @@ func (r *Readability) isSingleImage(n *Node) bool {
 		return true
 	}
 
-	if len(n.Children) != 1 || strings.TrimSpace(n.GetTextContent()) != "" {
+	if strings.TrimSpace(n.GetTextContent()) != "" {
 		return false
 	}
-	return r.isSingleImage(n.Children[0])
+	// Without text in the node there is none in its descendants either.
+	for len(n.Children) == 1 {
+		n = n.Children[0]
+		if n.TagName == "IMG" {
+			return true
+		}
+	}
+	return false
 }
 
 // Find all <noscript> that are located after <img> nodes, and which contain only one
-- 
2.43.0


From dd293802f17c66a0558a1893961cad73097bcb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:41 +0000
Subject: [PATCH 54/54] fix: of several attributes with the same name the first
 one counts

A later style, aria-hidden or role attribute, which browsers ignore, made
hidden text visible, and the content kept the ignored values.
---
 domparser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 487208e..c873769 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1036,7 +1036,10 @@ func (p *domParser) makeElementNode() *Node {
 	var node = newElement(tag)
 
 	for _, a := range token.Attr {
-		node.SetAttribute(a.Key, a.Val)
+		// Of several attributes with the same name, the first one counts.
+		if !node.HasAttribute(a.Key) {
+			node.SetAttribute(a.Key, a.Val)
+		}
 	}
 
 	return node
-- 
2.43.0

