From 57a6fc763fd39a983114580299082843af726019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 01/48] fix: escape Markdown at the start of lines inside a
 block quote

---
 plugin/commonmark/render_blockquote.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 588e89e..5f28747 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -20,6 +20,9 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 
 	content = textutils.TrimConsecutiveNewlines(content)
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
+	// Inside the quote the lines start after the prefix. So whether characters
+	// need to be escaped has to be decided before the prefix is added.
+	content = ctx.UnEscapeContent(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
 
 	w.WriteRune('\n')
-- 
2.43.0


From 6903beb15979c2967f0a4de0a4552282f0cd3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 02/48] fix: prefix every line of a code block inside a block
 quote

---
 plugin/commonmark/render_blockquote.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 5f28747..364be8a 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -5,10 +5,14 @@ import (
 
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
 func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
+	prefix := []byte{'>', ' '}
+	codeBlockNewline := append(bytes.Clone(marker.BytesMarkerCodeBlockNewline), prefix...)
+
 	var buf bytes.Buffer
 	ctx.RenderChildNodes(ctx, &buf, n)
 
@@ -23,7 +27,9 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	// Inside the quote the lines start after the prefix. So whether characters
 	// need to be escaped has to be decided before the prefix is added.
 	content = ctx.UnEscapeContent(content)
-	content = textutils.PrefixLines(content, []byte{'>', ' '})
+	content = textutils.PrefixLines(content, prefix)
+	// The lines of a code block are also lines of the quote
+	content = bytes.ReplaceAll(content, marker.BytesMarkerCodeBlockNewline, codeBlockNewline)
 
 	w.WriteRune('\n')
 	w.WriteRune('\n')
-- 
2.43.0


From 3e47a523d0af40c92627e2379a0b6615bcf41649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 03/48] fix: only replace the escape marker in front of a # at
 the end of a heading

---
 plugin/commonmark/render_heading.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index a350e8b..06c161a 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -82,11 +82,16 @@ func escapePoundSignAtEnd(s []byte) []byte {
 	// -2 placeholder
 	// -3 maybe \
 
-	if s[len(s)-1] != '#' {
+	if len(s) < 2 || s[len(s)-1] != '#' {
 		// We don't have a # at the end,
 		// so there is no work to do...
 		return s
 	}
+	if s[len(s)-2] != marker.BytesMarkerEscaping[0] {
+		// There is no placeholder (e.g. the escaping is disabled)
+		// that could be replaced.
+		return s
+	}
 	if len(s) >= 3 && s[len(s)-3] == '\\' {
 		// It is already escaped,
 		// so there is no work to do...
-- 
2.43.0


From c59bbf48f6e72f4fa0dd738625aa6faf9a9c00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 04/48] fix: escape backslashes in the title of links and
 images

---
 internal/textutils/quote.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/textutils/quote.go b/internal/textutils/quote.go
index 0e8c7eb..b849701 100644
--- a/internal/textutils/quote.go
+++ b/internal/textutils/quote.go
@@ -12,11 +12,37 @@ func SurroundBy(content []byte, chars []byte) []byte {
 	content = append(content, chars...)
 	return content
 }
+
+// A backslash in front of a punctuation character would be recognized as an escape.
+// And at the end it would escape the closing quote.
+func escapeBackslashes(content []byte) []byte {
+	if !bytes.ContainsRune(content, '\\') {
+		return content
+	}
+
+	escaped := make([]byte, 0, len(content)+1)
+	for i, char := range content {
+		escaped = append(escaped, char)
+		if char != '\\' {
+			continue
+		}
+		if i == len(content)-1 || isASCIIPunctuation(content[i+1]) {
+			escaped = append(escaped, '\\')
+		}
+	}
+	return escaped
+}
+func isASCIIPunctuation(b byte) bool {
+	return b >= '!' && b <= '/' || b >= ':' && b <= '@' || b >= '[' && b <= '`' || b >= '{' && b <= '~'
+}
+
 func SurroundByQuotes(content []byte) []byte {
 	if len(content) == 0 {
 		return nil
 	}
 
+	content = escapeBackslashes(content)
+
 	containsDoubleQuote := bytes.ContainsRune(content, DOUBLE_QUOTE)
 	containsSingleQuote := bytes.ContainsRune(content, SINGLE_QUOTE)
 
-- 
2.43.0


From be05f89b5e3a4bb035bc51748713947f89d7fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 05/48] fix: brackets after backslashes in the alt text of an
 image

---
 plugin/commonmark/render_image.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 81f761e..655335a 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -15,9 +15,12 @@ func escapeAlt(altString string) string {
 
 	var buf bytes.Buffer
 	for i := range alt {
-		if alt[i] == '[' || alt[i] == ']' {
-			prevIndex := i - 1
-			if prevIndex < 0 || alt[prevIndex] != '\\' {
+		switch alt[i] {
+		case '[', ']':
+			buf.WriteRune('\\')
+		case '\\':
+			// Otherwise it would escape the following bracket or backslash
+			if i+1 == len(alt) || alt[i+1] == '[' || alt[i+1] == ']' || alt[i+1] == '\\' {
 				buf.WriteRune('\\')
 			}
 		}
-- 
2.43.0


From cc7e790712cb02a9e12b0e4564655a86bfc1ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 06/48] fix: escape every | inside a table cell

---
 plugin/table/2_collect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index cfe615b..8a2a064 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -178,7 +178,9 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		content = bytes.TrimSpace(content)
 
 		// The character "|" inside the content would mistakenly be recognized as part of the table. So we have to escape it.
-		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\|`), -1)
+		// It can also be inside of e.g. inline code, where there is no placeholder.
+		content = bytes.ReplaceAll(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte{'|'})
+		content = bytes.ReplaceAll(content, []byte{'|'}, []byte(`\|`))
 		content = ctx.UnEscapeContent(content)
 
 		cellContents = append(cellContents, content)
-- 
2.43.0


From adaa1e8a364d8deb89823e7ca2be37a110d84e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 07/48] fix: newlines of a code block inside a table cell

---
 plugin/table/2_collect.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 8a2a064..ba11c35 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -103,7 +103,8 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 		for j, cell := range cells {
 			if containsNewline(cell) {
 				if p.newlineBehavior == NewlineBehaviorPreserve {
-					// Replace newlines with <br /> tags
+					// Replace newlines (also those of code blocks) with <br /> tags
+					cell = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("\n"))
 					rows[i][j] = bytes.ReplaceAll(cell, []byte("\n"), []byte("<br />"))
 					continue
 				}
-- 
2.43.0


From 2e50a6fdf8e64337a4a4c3c056af5323e9485464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 08/48] fix: limit rowspan and colspan like the HTML standard

---
 plugin/table/2_collect.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index ba11c35..5cc3ebb 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -10,6 +10,12 @@ import (
 	"golang.org/x/net/html/atom"
 )
 
+// The limits that the HTML standard defines for the attributes.
+const (
+	maxRowSpan = 65534
+	maxColSpan = 1000
+)
+
 type tableContent struct {
 	Alignments []string
 	Rows       [][][]byte
@@ -187,8 +193,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		cellContents = append(cellContents, content)
 
 		// - - col / row span - - //
-		rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)
-		colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
+		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
+		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
 
 		mods := calculateModifications(rowIndex, index, rowSpan, colSpan, p.getContentForMergedCell(content))
 
-- 
2.43.0


From 0a1a49f421e40489bd44d4958a4ec3e4ace78539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:50 +0000
Subject: [PATCH 09/48] fix: only use a single valid word as the info string of
 a code block

---
 plugin/commonmark/render_code.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index e939384..ca73091 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -74,6 +74,11 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 	fenceChar, _ := utf8.DecodeRuneInString(c.CodeBlockFence)
 	fence := textutils.CalculateCodeFence(fenceChar, string(code))
 
+	if fenceChar == '`' && strings.ContainsRune(infoString, '`') {
+		// The info string of a fence with backticks cannot contain backticks
+		infoString = ""
+	}
+
 	// We want to keep the original content inside the code block untouched.
 	// Because multiple newlines would be trimmed, we temporarily replace it with another character.
 	code = bytes.ReplaceAll(code, []byte("\n"), marker.BytesMarkerCodeBlockNewline)
@@ -93,7 +98,7 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 func getCodeLanguage(n *html.Node) string {
 	class := dom.GetAttributeOr(n, "class", "")
 
-	parts := strings.Split(class, " ")
+	parts := strings.Fields(class)
 	for _, part := range parts {
 		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
 			continue
-- 
2.43.0


From 681c10c22879e5333ba09391d8685a9ecaca77b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 10/48] fix: fall back to 1 if the start of an ordered list is
 not valid in markdown

---
 plugin/commonmark/render_list.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index d99109c..ceab3ab 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -13,10 +13,13 @@ import (
 	"golang.org/x/net/html"
 )
 
-func getStartAt(node *html.Node) int {
+// The number of an ordered list item can be at most nine digits long.
+const maxListNumber = 999999999
+
+func getStartAt(node *html.Node, sliceLength int) int {
 	startVal := dom.GetAttributeOr(node, "start", "1")
 	startAt, err := strconv.Atoi(startVal)
-	if err != nil {
+	if err != nil || startAt < 0 || startAt > maxListNumber-(sliceLength-1) {
 		startAt = 1
 	}
 
@@ -24,7 +27,7 @@ func getStartAt(node *html.Node) int {
 }
 
 func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) string {
-	startAt := getStartAt(n)
+	startAt := getStartAt(n, sliceLength)
 
 	return func(sliceIndex int) string {
 		if n.Data == "ul" {
-- 
2.43.0


From 092a44e51f441d1a296b39ecf1d07dc603b1084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:53 +0000
Subject: [PATCH 11/48] fix: escape list items that would be recognized as a
 thematic break

---
 plugin/commonmark/render_list.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index ceab3ab..a8ac0f5 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -45,6 +45,22 @@ func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) strin
 	}
 }
 
+// escapeThematicBreak prevents that the list marker together with the
+// first line (e.g. "- --") is recognized as a thematic break.
+func escapeThematicBreak(prefix string, item []byte) []byte {
+	if len(item) < 2 || item[0] != marker.BytesMarkerEscaping[0] || item[1] != prefix[0] {
+		return item
+	}
+
+	line, _, _ := bytes.Cut(item, []byte("\n"))
+	if len(bytes.Trim(line, string(marker.BytesMarkerEscaping)+" "+prefix[:1])) != 0 {
+		return item
+	}
+
+	item[0] = '\\'
+	return item
+}
+
 func renderMultiLineListItem(w converter.Writer, content []byte, indentCount int) {
 	lines := bytes.Split(content, []byte("\n"))
 	indent := bytes.Repeat([]byte(" "), indentCount)
@@ -98,6 +114,7 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 
 		item = textutils.TrimConsecutiveNewlines(item)
 		item = textutils.TrimUnnecessaryHardLineBreaks(item)
+		item = escapeThematicBreak(getPrefix(i), item)
 		item = ctx.UnEscapeContent(item)
 
 		// An item might have different lines that each
-- 
2.43.0


From 19c27dee213017ab04895b556f4f986ab5cbf2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:55 +0000
Subject: [PATCH 12/48] fix: data race when looking up the tag type

---
 converter/register.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/converter/register.go b/converter/register.go
index d200ded..ac2149c 100644
--- a/converter/register.go
+++ b/converter/register.go
@@ -215,8 +215,14 @@ func (conv *Converter) getTagType(tagName string) (tagType, bool) {
 		return "", false
 	}
 
-	types.Sort()
-	firstType := types[0].Value
+	// Other goroutines might be reading the same slice, so it is not sorted here.
+	// The first type with the lowest priority wins.
+	firstType := types[0]
+	for _, other := range types[1:] {
+		if other.Priority < firstType.Priority {
+			firstType = other
+		}
+	}
 
-	return firstType, true
+	return firstType.Value, true
 }
-- 
2.43.0


From 7fb3460b0944ecc217b94ee94c0b80d8bdf2109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 13/48] fix: data race when reading the registered plugins

---
 converter/convert.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/convert.go b/converter/convert.go
index 047f64f..09f05e6 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -76,8 +76,10 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, errNoRenderHandlers
 	}
 
+	conv.m.RLock()
 	containsCommonmark := slices.Contains(conv.registeredPlugins, "commonmark")
 	containsBase := slices.Contains(conv.registeredPlugins, "base")
+	conv.m.RUnlock()
 	if containsCommonmark && !containsBase {
 		return nil, errBasePluginMissing
 	}
-- 
2.43.0


From 2f84c5e81b66b896696d90e661a651690d353162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 14/48] fix: keep the registration order for handlers of the
 same priority

---
 converter/prioritized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/prioritized.go b/converter/prioritized.go
index b0d5196..6384da1 100644
--- a/converter/prioritized.go
+++ b/converter/prioritized.go
@@ -23,7 +23,7 @@ type prioritizedValue[V any] struct {
 type prioritizedSlice[V any] []prioritizedValue[V]
 
 func (s prioritizedSlice[V]) Sort() {
-	sort.Slice(s, func(i, j int) bool {
+	sort.SliceStable(s, func(i, j int) bool {
 		return s[i].Priority < s[j].Priority
 	})
 }
-- 
2.43.0


From 601dc91a26a0a2cd4e92b60b26de9efa2e96b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 15/48] fix: refuse delimiters and horizontal rules with other
 characters

---
 plugin/commonmark/validation.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index bf22ce9..f521bba 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -38,15 +38,25 @@ func (e *ValidateConfigError) Error() string {
 	return fmt.Sprintf("invalid value for %s must be %s", e.KeyWithValue, e.patternDescription)
 }
 
+func isHorizontalRule(value string) bool {
+	for _, char := range []string{"*", "_", "-"} {
+		// Spaces between the characters are allowed
+		if strings.Trim(value, char+" ") == "" && strings.Count(value, char) >= 3 {
+			return true
+		}
+	}
+	return false
+}
+
 func validateConfig(cfg *config) error {
-	if strings.Count(cfg.EmDelimiter, "_") != 1 && strings.Count(cfg.EmDelimiter, "*") != 1 {
+	if !contains([]string{"*", "_"}, cfg.EmDelimiter) {
 		return &ValidateConfigError{
 			Key:                "EmDelimiter",
 			Value:              cfg.EmDelimiter,
 			patternDescription: `exactly 1 character of "*" or "_"`,
 		}
 	}
-	if strings.Count(cfg.StrongDelimiter, "_") != 2 && strings.Count(cfg.StrongDelimiter, "*") != 2 {
+	if !contains([]string{"**", "__"}, cfg.StrongDelimiter) {
 		return &ValidateConfigError{
 			Key:                "StrongDelimiter",
 			Value:              cfg.StrongDelimiter,
@@ -54,9 +64,7 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
-	if strings.Count(cfg.HorizontalRule, "*") < 3 &&
-		strings.Count(cfg.HorizontalRule, "_") < 3 &&
-		strings.Count(cfg.HorizontalRule, "-") < 3 {
+	if !isHorizontalRule(cfg.HorizontalRule) {
 		return &ValidateConfigError{
 			Key:                "HorizontalRule",
 			Value:              cfg.HorizontalRule,
-- 
2.43.0


From cedea23b2fcbd79d114ca37752791e5f6d4302a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:06 +0000
Subject: [PATCH 16/48] fix: bold inside bold after merging nodes or replacing
 headings

---
 plugin/commonmark/handle_pre_render.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/commonmark/handle_pre_render.go b/plugin/commonmark/handle_pre_render.go
index 47eebb5..4099f9a 100644
--- a/plugin/commonmark/handle_pre_render.go
+++ b/plugin/commonmark/handle_pre_render.go
@@ -89,6 +89,10 @@ func (c *commonmark) handlePreRender(ctx converter.Context, doc *html.Node) {
 	domutils.SwapTags(ctx, doc, nameIsLink, nameIsHeading)
 	domutils.LeafBlockAlternatives(ctx, doc)
 
+	// Merging adjacent nodes and replacing headings can place
+	// bold / italic nodes inside each other again.
+	domutils.RemoveRedundant(doc, nameIsBothBoldOrItalic)
+
 	// - - - List - - - //
 	domutils.MoveListItems(ctx, doc)
 }
-- 
2.43.0


From 1ef1c5e00ed606530750298a203f5ccc8b8df0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 17/48] fix: divider as the first element of a list item with
 the same character

---
 plugin/commonmark/render_list.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index a8ac0f5..039d250 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -48,6 +48,20 @@ func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) strin
 // escapeThematicBreak prevents that the list marker together with the
 // first line (e.g. "- --") is recognized as a thematic break.
 func escapeThematicBreak(prefix string, item []byte) []byte {
+	if prefix[0] != '-' && prefix[0] != '*' {
+		return item
+	}
+	if len(item) >= 1 && item[0] == prefix[0] {
+		// It is not a text that could be escaped but a divider,
+		// so it has to be a divider with another character.
+		line, _, _ := bytes.Cut(item, []byte("\n"))
+		if len(bytes.Trim(line, " "+prefix[:1])) == 0 {
+			divider := bytes.ReplaceAll(line, []byte(prefix[:1]), []byte("_"))
+			return append(divider, item[len(line):]...)
+		}
+		return item
+	}
+
 	if len(item) < 2 || item[0] != marker.BytesMarkerEscaping[0] || item[1] != prefix[0] {
 		return item
 	}
-- 
2.43.0


From 05eadbe037d219b5d3f166c26193ac9956c2a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:02 +0000
Subject: [PATCH 18/48] fix: words around an empty heading, list or quote were
 joined

---
 plugin/commonmark/render_blockquote.go | 2 ++
 plugin/commonmark/render_heading.go    | 2 ++
 plugin/commonmark/render_list.go       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 364be8a..467e150 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -19,6 +19,8 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content := buf.Bytes()
 	content = bytes.TrimSpace(content)
 	if content == nil {
+		// Without any content it still separates the text around it
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index 06c161a..a003d7b 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -116,6 +116,8 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	content := buf.Bytes()
 
 	if len(bytes.TrimSpace(content)) == 0 {
+		// Without any content it still separates the text around it
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 039d250..59e22d8 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -116,6 +116,8 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 	}
 
 	if len(items) == 0 {
+		// Without any content it still separates the text around it
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
-- 
2.43.0


From f6e30c1e20df1158797f7ff5e4a6d610ffec93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 19/48] fix: line break at the edge of a setext heading broke
 the heading

---
 plugin/commonmark/render_heading.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index a003d7b..1584a06 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -125,6 +125,7 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 		// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 		// since `EscapeMultiLine` also takes care of newlines.
 		content = textutils.TrimConsecutiveNewlines(content)
+		content = bytes.TrimSpace(content)
 		content = textutils.EscapeMultiLine(content)
 
 		width := getUnderlineWidth(content, 3)
-- 
2.43.0


From 97f90a33edcdf65a021b9fba5ad580f41f78f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:54 +0000
Subject: [PATCH 20/48] fix: cells next to a colspan or rowspan ended up in
 another column

---
 plugin/table/2_collect.go | 35 ++++++++++++++++++++++++++---------
 plugin/table/utils.go     | 20 +++++++++++---------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 5cc3ebb..e1da7cb 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -2,6 +2,7 @@ package table
 
 import (
 	"bytes"
+	"slices"
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
@@ -168,7 +169,10 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 
 	return alignments
 }
-func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node) ([][]byte, []modification) {
+
+// collectCellsInRow also updates the "taken" map: for every column the index
+// of the first row, that is not taken by a cell spanning multiple rows.
+func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node, taken map[int]int) ([][]byte, []modification) {
 	cellNodes := dom.FindAllNodes(rowNode, func(node *html.Node) bool {
 		name := dom.NodeName(node)
 		return name == "th" || name == "td"
@@ -177,7 +181,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 	cellContents := make([][]byte, 0, len(cellNodes))
 	modifications := make([]modification, 0)
 
-	for index, cellNode := range cellNodes {
+	colIndex := 0
+	for _, cellNode := range cellNodes {
 		var buf bytes.Buffer
 		ctx.RenderNodes(ctx, &buf, cellNode)
 
@@ -196,7 +201,18 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
 		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
 
-		mods := calculateModifications(rowIndex, index, rowSpan, colSpan, p.getContentForMergedCell(content))
+		// The columns could already be taken by other cells
+		for taken[colIndex] > rowIndex {
+			colIndex++
+		}
+
+		mods := calculateModifications(rowIndex, colIndex, rowSpan, colSpan, p.getContentForMergedCell(content))
+		mods = slices.DeleteFunc(mods, func(mod modification) bool {
+			return mod.y < taken[mod.x]
+		})
+		for x := colIndex; x < colIndex+colSpan; x++ {
+			taken[x] = max(taken[x], rowIndex+rowSpan)
+		}
 
 		modifications = append(modifications, mods...)
 	}
@@ -205,14 +221,15 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 }
 func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Node, rowNodes []*html.Node) [][][]byte {
 	rowContents := make([][][]byte, 0, len(rowNodes)+1)
-	groupedModifications := make([][]modification, 0)
+	modifications := make([]modification, 0)
+	taken := make(map[int]int)
 
 	// - - 1. the header row - - //
 	if headerRowNode != nil {
-		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode)
+		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode, taken)
 
 		rowContents = append(rowContents, cells)
-		groupedModifications = append(groupedModifications, mods)
+		modifications = append(modifications, mods...)
 	} else {
 		// There needs to be *header* row so that the table is recognized.
 		// So it is better to have an empty header row...
@@ -221,16 +238,16 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 
 	// - - 2. the normal rows - - //
 	for index, rowNode := range rowNodes {
-		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode)
+		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode, taken)
 
 		rowContents = append(rowContents, cells)
-		groupedModifications = append(groupedModifications, mods)
+		modifications = append(modifications, mods...)
 	}
 
 	// Sometimes a cell wants to *span* over multiple columns or/and rows.
 	// We collected these modifications and are now applying it,
 	// by shifting the cells around.
-	rowContents = applyGroupedModifications(rowContents, groupedModifications)
+	rowContents = applyModifications(rowContents, sortModifications(modifications))
 
 	if p.skipEmptyRows {
 		rowContents = removeEmptyRows(rowContents)
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index dc1eacb..5a9be97 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -1,6 +1,7 @@
 package table
 
 import (
+	"cmp"
 	"slices"
 	"strconv"
 	"unicode/utf8"
@@ -101,16 +102,17 @@ func calculateModifications(currentRowIndex, currentColIndex, rowSpan, colSpan i
 	return mods
 }
 
-func applyGroupedModifications(contents [][][]byte, groupedMods [][]modification) [][][]byte {
-	// By applying the modifications in reverse we correctly
-	// handle overlapping modifications.
-	slices.Reverse(groupedMods)
-
-	for _, mods := range groupedMods {
-		contents = applyModifications(contents, mods)
-	}
+// sortModifications brings the modifications in an order, so that by inserting
+// the cells one after the other they end up at their position.
+func sortModifications(mods []modification) []modification {
+	slices.SortStableFunc(mods, func(a, b modification) int {
+		if a.y != b.y {
+			return cmp.Compare(a.y, b.y)
+		}
+		return cmp.Compare(a.x, b.x)
+	})
 
-	return contents
+	return mods
 }
 
 func applyModifications(contents [][][]byte, mods []modification) [][][]byte {
-- 
2.43.0


From a62ace69064cb91881dc88ea016ad94f17d00beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:51 +0000
Subject: [PATCH 21/48] fix: table inside a heading left its pipes in the
 heading

---
 plugin/table/2_collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index e1da7cb..37675d8 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -54,7 +54,7 @@ func hasProblematicParentNode(node *html.Node) bool {
 
 	for p != nil {
 		name := dom.NodeName(p)
-		if name == "a" {
+		if name == "a" || dom.NameIsHeading(name) {
 			return true
 		}
 		if name == "strong" || name == "b" {
-- 
2.43.0


From b1b50bc84e019ef99e5094189f51613b246a660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:39 +0000
Subject: [PATCH 22/48] fix: language starting with the fence character made
 the fence longer

---
 plugin/commonmark/render_code.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index ca73091..e6d6d8a 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -78,6 +78,10 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 		// The info string of a fence with backticks cannot contain backticks
 		infoString = ""
 	}
+	if strings.HasPrefix(infoString, string(fenceChar)) {
+		// It would be recognized as part of the fence
+		infoString = ""
+	}
 
 	// We want to keep the original content inside the code block untouched.
 	// Because multiple newlines would be trimmed, we temporarily replace it with another character.
-- 
2.43.0


From 2f61a6f61ee4a089b3f9fcf810fb1c7a7fc67a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:40 +0000
Subject: [PATCH 23/48] fix: newlines in an otherwise empty inline code split
 the paragraph

---
 plugin/commonmark/render_code.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index e6d6d8a..469e848 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -30,7 +30,9 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 	}
 
 	if bytes.TrimSpace(codeContent) == nil {
-		// No stripping occurs if the code span contains _only_ spaces:
+		// No stripping occurs if the code span contains _only_ spaces.
+		// But newlines would end the line (or even the paragraph).
+		codeContent = bytes.ReplaceAll(codeContent, []byte("\n"), []byte(" "))
 		w.WriteRune(fenceChar)
 		w.Write(codeContent)
 		w.WriteRune(fenceChar)
-- 
2.43.0


From 9b2e6336991bee5392788d1ba96b138bdda4ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 24/48] fix: backtick or < in an alt text could break the image

---
 plugin/commonmark/render_image.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 655335a..83cac9c 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -18,9 +18,13 @@ func escapeAlt(altString string) string {
 		switch alt[i] {
 		case '[', ']':
 			buf.WriteRune('\\')
+		case '`', '<':
+			// A code span or html tag that starts inside the description
+			// could end after the image, which would then not be an image.
+			buf.WriteRune('\\')
 		case '\\':
-			// Otherwise it would escape the following bracket or backslash
-			if i+1 == len(alt) || alt[i+1] == '[' || alt[i+1] == ']' || alt[i+1] == '\\' {
+			// Otherwise it would escape the following character or its backslash
+			if i+1 == len(alt) || alt[i+1] == '[' || alt[i+1] == ']' || alt[i+1] == '`' || alt[i+1] == '<' || alt[i+1] == '\\' {
 				buf.WriteRune('\\')
 			}
 		}
-- 
2.43.0


From 1f1b0d43cb2a0ca51d119c5157a169c0f22e367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:18 +0000
Subject: [PATCH 25/48] fix: an encoded slash in a url was decoded if the url
 had a space or unicode character

---
 converter/url.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/converter/url.go b/converter/url.go
index 7de62f8..4c4e82c 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -47,7 +47,7 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 	rawURL = strings.ReplaceAll(rawURL, "\n", "%0A")
 	rawURL = strings.ReplaceAll(rawURL, "\t", "%09")
 
-	u, err := url.Parse(rawURL)
+	u, err := url.Parse(encodeUnsafe(rawURL))
 	if err != nil {
 		// We can't do anything with this url because it is invalid
 		return percentEncodingReplacer.Replace(rawURL)
@@ -76,6 +76,24 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 	return percentEncodingReplacer.Replace(u.String())
 }
 
+// encodeUnsafe percent encodes the characters that are never allowed in a url.
+// If only one of them is in a path, `u.String()` would otherwise encode the
+// *whole* path from scratch, and an encoded slash ("%2F") would become a slash.
+func encodeUnsafe(rawURL string) string {
+	var sb strings.Builder
+	for i := 0; i < len(rawURL); i++ {
+		c := rawURL[i]
+		if c >= 0x80 || strings.IndexByte(" \"<>\\^`{|}", c) != -1 {
+			sb.WriteByte('%')
+			sb.WriteByte("0123456789ABCDEF"[c>>4])
+			sb.WriteByte("0123456789ABCDEF"[c&15])
+			continue
+		}
+		sb.WriteByte(c)
+	}
+	return sb.String()
+}
+
 // - - - - //
 
 func decodeAndEncode(original string) string {
-- 
2.43.0


From e1fda2e4309b315fefdac152569a9b00a2fb7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 26/48] fix: control characters and backslashes in an invalid
 or opaque url broke the link

---
 converter/url.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/converter/url.go b/converter/url.go
index 4c4e82c..237e9c4 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -13,6 +13,18 @@ var percentEncodingReplacer = strings.NewReplacer(
 	")", "%29",
 	"<", "%3C",
 	">", "%3E",
+	"\\", "%5C", // it would otherwise be an escape
+
+	// A control character ends the link destination
+	"\x00", "%00", "\x01", "%01", "\x02", "%02", "\x03", "%03",
+	"\x04", "%04", "\x05", "%05", "\x06", "%06", "\x07", "%07",
+	"\x08", "%08", "\x09", "%09", "\x0a", "%0A", "\x0b", "%0B",
+	"\x0c", "%0C", "\x0d", "%0D", "\x0e", "%0E", "\x0f", "%0F",
+	"\x10", "%10", "\x11", "%11", "\x12", "%12", "\x13", "%13",
+	"\x14", "%14", "\x15", "%15", "\x16", "%16", "\x17", "%17",
+	"\x18", "%18", "\x19", "%19", "\x1a", "%1A", "\x1b", "%1B",
+	"\x1c", "%1C", "\x1d", "%1D", "\x1e", "%1E", "\x1f", "%1F",
+	"\x7f", "%7F",
 )
 
 func parseBaseDomain(rawDomain string) *url.URL {
-- 
2.43.0


From fa0738ec9f9fb7445adfa4ffccb9e53533766d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 27/48] fix: the brackets of an IPv6 address were percent
 encoded

---
 converter/url.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/converter/url.go b/converter/url.go
index 237e9c4..8929a91 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -85,7 +85,13 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 		u = base.ResolveReference(u)
 	}
 
-	return percentEncodingReplacer.Replace(u.String())
+	encoded := percentEncodingReplacer.Replace(u.String())
+	if strings.HasPrefix(u.Host, "[") {
+		// The brackets of an IPv6 address can't be percent encoded
+		host := u.Hostname()
+		encoded = strings.Replace(encoded, "%5B"+host+"%5D", "["+host+"]", 1)
+	}
+	return encoded
 }
 
 // encodeUnsafe percent encodes the characters that are never allowed in a url.
-- 
2.43.0


From c733a85fda740b3e9ba5d127d664c59bdc56ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:40 +0000
Subject: [PATCH 28/48] fix: a horizontal rule with four or more leading spaces
 was accepted

---
 plugin/commonmark/validation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index f521bba..adca60a 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -39,6 +39,11 @@ func (e *ValidateConfigError) Error() string {
 }
 
 func isHorizontalRule(value string) bool {
+	if strings.HasPrefix(value, "    ") {
+		// With that much indentation it would be a code block
+		return false
+	}
+
 	for _, char := range []string{"*", "_", "-"} {
 		// Spaces between the characters are allowed
 		if strings.Trim(value, char+" ") == "" && strings.Count(value, char) >= 3 {
-- 
2.43.0


From 696cb8c04af6b1db42d1efd7710c4207b8a344e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:26 +0000
Subject: [PATCH 29/48] fix: --include-selector keeps nested matches in place

---
 cli/html2markdown/cmd/cmd_convert.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 699ea41..4eccdcd 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -33,6 +33,15 @@ func overrideValidationError(e *commonmark.ValidateConfigError) error {
 	return e
 }
 
+func hasAncestor(node *html.Node, ancestor *html.Node) bool {
+	for n := node.Parent; n != nil; n = n.Parent {
+		if n == ancestor {
+			return true
+		}
+	}
+	return false
+}
+
 func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 	if len(cli.config.includeSelector) == 0 {
 		return doc, nil
@@ -41,6 +50,11 @@ func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 
 	root := &html.Node{}
 	for _, n := range nodes {
+		if hasAncestor(n, root) {
+			// It is part of another matching element that was already moved.
+			continue
+		}
+
 		dom.RemoveNode(n)
 		root.AppendChild(n)
 	}
-- 
2.43.0


From 9e871c773b3f7f61ab377d776be449ddd1bc5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:27 +0000
Subject: [PATCH 30/48] fix: --exclude-selector matches against the original
 document

---
 cli/html2markdown/cmd/cmd_convert.go | 30 ++++++++--------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 4eccdcd..74aff37 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -61,28 +61,11 @@ func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 
 	return root, nil
 }
-func (cli *CLI) excludeNodesFromDoc(doc *html.Node) error {
+func (cli *CLI) findExcludedNodes(doc *html.Node) []*html.Node {
 	if len(cli.config.excludeSelector) == 0 {
 		return nil
 	}
-
-	var finder func(node *html.Node)
-	finder = func(node *html.Node) {
-		if cli.config.excludeSelector.Match(node) {
-			dom.RemoveNode(node)
-			return
-		}
-
-		for child := node.FirstChild; child != nil; child = child.NextSibling {
-			// Because we are sometimes removing a node, this causes problems
-			// with the for loop. Using `defer` is a cool trick!
-			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
-			defer finder(child)
-		}
-	}
-	finder(doc)
-
-	return nil
+	return cascadia.QueryAll(doc, cli.config.excludeSelector)
 }
 func (cli *CLI) parseInputWithSelectors(input []byte) (*html.Node, error) {
 	r := bytes.NewReader(input)
@@ -92,14 +75,17 @@ func (cli *CLI) parseInputWithSelectors(input []byte) (*html.Node, error) {
 		return nil, fmt.Errorf("error while parsing html: %w", err)
 	}
 
+	// The selectors apply to the original document. So we need to find *all* matches
+	// before nodes are moved or removed (e.g. for "li:last-child" or "article p").
+	excludedNodes := cli.findExcludedNodes(doc)
+
 	doc, err = cli.includeNodesFromDoc(doc)
 	if err != nil {
 		return nil, err
 	}
 
-	err = cli.excludeNodesFromDoc(doc)
-	if err != nil {
-		return nil, err
+	for _, n := range excludedNodes {
+		dom.RemoveNode(n)
 	}
 
 	return doc, nil
-- 
2.43.0


From baf7909d608b614f0e056dfd3caf09319c54e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:24 +0000
Subject: [PATCH 31/48] fix: inputs whose output filenames collide overwrote
 each other

---
 cli/html2markdown/cmd/io_output.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 3037a09..b8359de 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -85,16 +85,15 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 		filepath.ToSlash(filepath.Clean(inputFilepath)),
 	)
 
-	allBasenames := make(map[string]int)
+	usedFilenames := make(map[string]bool)
 	for _, input := range inputs {
 		basenameWithExt := filepath.Base(input.inputFullFilepath)
 		basename := fileNameWithoutExtension(basenameWithExt)
 
-		val := allBasenames[basename]
-		if val == 0 {
-			// -> The standard filename
-			input.outputFullFilepath = basename + ".md"
-		} else {
+		// -> The standard filename
+		filename := basename + ".md"
+
+		if usedFilenames[filename] {
 			relativePath, err := filepath.Rel(globBase, input.inputFullFilepath)
 			if err != nil {
 				return err
@@ -106,10 +105,16 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 			hash := hashFilepath(relativePath)
 
 			// -> The filename for duplicates
-			input.outputFullFilepath = basename + "." + hash[:10] + ".md"
+			//
+			// Note: Another input could also be called like that (e.g. "page.2cf30051f8.html"),
+			//       in that case more of the hash is used.
+			for length := 10; usedFilenames[filename] && length <= len(hash); length++ {
+				filename = basename + "." + hash[:length] + ".md"
+			}
 		}
 
-		allBasenames[basename]++
+		input.outputFullFilepath = filename
+		usedFilenames[filename] = true
 	}
 
 	return nil
-- 
2.43.0


From 8ecbed3e17b89f90ccaa91b1bf7e993982fc473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:25 +0000
Subject: [PATCH 32/48] fix: an input inside the output directory was
 overwritten before it was read

---
 cli/html2markdown/cmd/exec.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cli/html2markdown/cmd/exec.go b/cli/html2markdown/cmd/exec.go
index 785207a..8083b43 100644
--- a/cli/html2markdown/cmd/exec.go
+++ b/cli/html2markdown/cmd/exec.go
@@ -169,6 +169,17 @@ func (cli *CLI) run() ([]error, error) {
 		return nil, err
 	}
 
+	if outputType == outputTypeDirectory && cli.config.outputOverwrite {
+		// An output could replace one of the other inputs (when they are in the
+		// same directory), so all inputs are read before anything is written.
+		for _, input := range inputs {
+			input.data, err = cli.readInput(input)
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	for _, input := range inputs {
 		data, err := cli.readInput(input)
 		if err != nil {
-- 
2.43.0


From ebdc397fad3049b21fde6828bdade0bcf49261ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:21 +0000
Subject: [PATCH 33/48] fix: the cli exited with 0 when writing to stdout
 failed

---
 cli/html2markdown/cmd/io_output.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index b8359de..0339ec1 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -175,7 +175,10 @@ func (cli *CLI) writeOutput(outputType outputType, filename string, markdown []b
 		}
 	default:
 		{
-			fmt.Fprintln(cli.Stdout, string(markdown))
+			_, err := fmt.Fprintln(cli.Stdout, string(markdown))
+			if err != nil {
+				return fmt.Errorf("error while writing to stdout: %w", err)
+			}
 
 			return nil
 		}
-- 
2.43.0


From a245105731147bca1ec8ad5e50f4032a72429e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 34/48] fix: backticks of a literal code fence could begin
 inline code

<p>````a<br>```b</p> and <p>~~`a`</p> got an escape only for the first
character of the fence.
---
 internal/escape/elem_code.go    | 2 +-
 plugin/commonmark/commonmark.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/escape/elem_code.go b/internal/escape/elem_code.go
index 65adaaa..377bd1d 100644
--- a/internal/escape/elem_code.go
+++ b/internal/escape/elem_code.go
@@ -22,7 +22,7 @@ func IsFencedCode(chars []byte, index int) int {
 		if chars[i] == placeholderByte {
 			continue
 		}
-		if chars[i] == '`' || chars[i] == '~' {
+		if chars[i] == chars[index] {
 			count++
 			continue
 		}
diff --git a/plugin/commonmark/commonmark.go b/plugin/commonmark/commonmark.go
index d9ef9be..5e85be5 100644
--- a/plugin/commonmark/commonmark.go
+++ b/plugin/commonmark/commonmark.go
@@ -170,8 +170,10 @@ func (cm *commonmark) Init(conv *converter.Converter) error {
 	conv.Register.UnEscaper(escape.IsOrderedList, converter.PriorityStandard)
 	conv.Register.UnEscaper(escape.IsUnorderedList, converter.PriorityStandard)
 	conv.Register.UnEscaper(escape.IsImageOrLink, converter.PriorityStandard)
-	conv.Register.UnEscaper(escape.IsFencedCode, converter.PriorityStandard)
+	// Note: Every backtick needs an escape, since the others in front of a fence
+	// could begin inline code. So this has to run before the fenced code.
 	conv.Register.UnEscaper(escape.IsInlineCode, converter.PriorityStandard)
+	conv.Register.UnEscaper(escape.IsFencedCode, converter.PriorityStandard)
 	conv.Register.UnEscaper(escape.IsBackslash, converter.PriorityStandard)
 
 	conv.Register.Renderer(cm.handleRender, converter.PriorityStandard)
-- 
2.43.0


From 4a3da510edf9954ae442c4579c710357378829de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:29 +0000
Subject: [PATCH 35/48] fix: a literal link over several lines became a link

<p>[a<br>b](c)</p> was not escaped.
---
 internal/escape/elem_image.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/internal/escape/elem_image.go b/internal/escape/elem_image.go
index e1d9b5d..91d740a 100644
--- a/internal/escape/elem_image.go
+++ b/internal/escape/elem_image.go
@@ -22,15 +22,40 @@ func isImageOrLinkStartExclamation(chars []byte, index int) int {
 }
 
 func isImageOrLinkStartBracket(chars []byte, index int) int {
+	isNextLine := false
 	for i := index + 1; i < len(chars); i++ {
 		if chars[i] == '\n' {
-			return -1
+			if isBlankLine(chars, i+1) {
+				return -1
+			}
+			isNextLine = true
+			continue
 		}
 
 		if chars[i] == ']' {
-			return 1
+			if !isNextLine {
+				return 1
+			}
+
+			// A link that goes over multiple lines
+			next := getNext(chars, i)
+			if next == '(' || next == ':' {
+				return 1
+			}
 		}
 	}
 
 	return -1
 }
+
+func isBlankLine(chars []byte, index int) bool {
+	for i := index; i < len(chars); i++ {
+		if chars[i] == '\n' {
+			return true
+		}
+		if chars[i] != ' ' && chars[i] != placeholderByte {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From e5028de87c8fdbe982c8de132c9095ba675af317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:59 +0000
Subject: [PATCH 36/48] fix: a literal delimiter behind an emphasis could
 extend its delimiter

<p>a<em>x</em>*</p> gave a*x**, which is not an emphasis.
---
 internal/escape/elem_italic_bold.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/escape/elem_italic_bold.go b/internal/escape/elem_italic_bold.go
index 84381af..3602cc3 100644
--- a/internal/escape/elem_italic_bold.go
+++ b/internal/escape/elem_italic_bold.go
@@ -12,10 +12,19 @@ func IsItalicOrBold(chars []byte, index int) int {
 	next := getNextAsRune(chars, index)
 
 	nextIsWhitespace := unicode.IsSpace(next) || next == 0
-	if nextIsWhitespace {
+	if nextIsWhitespace && !isAfterDelimiter(chars, index) {
 		// "not followed by Unicode whitespace"
 		return -1
 	}
 
 	return 1
 }
+
+// isAfterDelimiter returns true if the same character is directly in front of it,
+// but as the delimiter of an element. It would otherwise extend that delimiter.
+func isAfterDelimiter(chars []byte, index int) bool {
+	if index < 2 || chars[index-1] != placeholderByte || chars[index-2] != chars[index] {
+		return false
+	}
+	return index == 2 || chars[index-3] != placeholderByte && chars[index-3] != '\\'
+}
-- 
2.43.0


From 53d80efbd4d078a5592b191f09e10b87483492d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:15 +0000
Subject: [PATCH 37/48] fix: a literal ~ behind a strikethrough could extend
 its delimiter

<p><del>x</del>~</p> gave ~~x~~~, which is not a strikethrough.
---
 internal/escape/elem_italic_bold.go   | 6 +++---
 plugin/strikethrough/strikethrough.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/escape/elem_italic_bold.go b/internal/escape/elem_italic_bold.go
index 3602cc3..0d2c889 100644
--- a/internal/escape/elem_italic_bold.go
+++ b/internal/escape/elem_italic_bold.go
@@ -12,7 +12,7 @@ func IsItalicOrBold(chars []byte, index int) int {
 	next := getNextAsRune(chars, index)
 
 	nextIsWhitespace := unicode.IsSpace(next) || next == 0
-	if nextIsWhitespace && !isAfterDelimiter(chars, index) {
+	if nextIsWhitespace && !IsAfterDelimiter(chars, index) {
 		// "not followed by Unicode whitespace"
 		return -1
 	}
@@ -20,9 +20,9 @@ func IsItalicOrBold(chars []byte, index int) int {
 	return 1
 }
 
-// isAfterDelimiter returns true if the same character is directly in front of it,
+// IsAfterDelimiter returns true if the same character is directly in front of it,
 // but as the delimiter of an element. It would otherwise extend that delimiter.
-func isAfterDelimiter(chars []byte, index int) bool {
+func IsAfterDelimiter(chars []byte, index int) bool {
 	if index < 2 || chars[index-1] != placeholderByte || chars[index-2] != chars[index] {
 		return false
 	}
diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index 961212f..74fa966 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -65,7 +65,7 @@ func (s *strikethroughPlugin) handleUnEscapers(chars []byte, index int) int {
 	next := escape.GetNextAsRune(chars, index)
 
 	nextIsWhitespace := unicode.IsSpace(next) || next == 0
-	if nextIsWhitespace {
+	if nextIsWhitespace && !escape.IsAfterDelimiter(chars, index) {
 		// "not followed by Unicode whitespace"
 		return -1
 	}
-- 
2.43.0


From ab5c9d0bb60ba855fd1b94c88952b07a2259c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:44 +0000
Subject: [PATCH 38/48] fix: with the table plugin a literal text could become
 a table

<p>a|b<br>-|-</p> was not escaped, and a reader with tables saw one.
---
 plugin/table/escape.go | 39 +++++++++++++++++++++++++++++++++++++++
 plugin/table/table.go  |  1 +
 2 files changed, 40 insertions(+)
 create mode 100644 plugin/table/escape.go

diff --git a/plugin/table/escape.go b/plugin/table/escape.go
new file mode 100644
index 0000000..a39ab25
--- /dev/null
+++ b/plugin/table/escape.go
@@ -0,0 +1,39 @@
+package table
+
+import (
+	"bytes"
+
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
+)
+
+// isDelimiterRow is an UnEscaper for text that would be recognized as the row
+// below the header of a table (for example `--- | ---`).
+func isDelimiterRow(chars []byte, index int) int {
+	if chars[index] != '-' && chars[index] != '|' {
+		return -1
+	}
+
+	start := bytes.LastIndexByte(chars[:index], '\n') + 1
+	end := len(chars)
+	if i := bytes.IndexByte(chars[index:], '\n'); i != -1 {
+		end = index + i
+	}
+
+	above := bytes.TrimSuffix(chars[:start], []byte("\n"))
+	if len(above) == 0 || above[len(above)-1] == '\n' {
+		// There is no line above that could be the header.
+		return -1
+	}
+	if chars[start] == '|' {
+		// It is not a text but the row of an actual table.
+		return -1
+	}
+
+	line := bytes.ReplaceAll(chars[start:end], marker.BytesMarkerEscaping, nil)
+	if !bytes.Contains(line, []byte("-")) || len(bytes.Trim(line, "|-: ")) != 0 {
+		return -1
+	}
+
+	// One escaped character is enough
+	return end - index
+}
diff --git a/plugin/table/table.go b/plugin/table/table.go
index 9d79617..30aeffc 100644
--- a/plugin/table/table.go
+++ b/plugin/table/table.go
@@ -187,6 +187,7 @@ func (s *tablePlugin) Init(conv *converter.Converter) error {
 	}
 
 	conv.Register.EscapedChar('|')
+	conv.Register.UnEscaper(isDelimiterRow, converter.PriorityStandard)
 
 	conv.Register.Renderer(s.handleRender, converter.PriorityStandard)
 
-- 
2.43.0


From f4e263bcd645fd71f49534c354220c093ed670da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:33 +0000
Subject: [PATCH 39/48] fix: text moved out of its block or link when emphasis
 or code elements followed each other

---
 internal/domutils/adjacent.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/domutils/adjacent.go b/internal/domutils/adjacent.go
index 49faccb..d1902d4 100644
--- a/internal/domutils/adjacent.go
+++ b/internal/domutils/adjacent.go
@@ -5,18 +5,32 @@ import (
 	"golang.org/x/net/html"
 )
 
+// getNextInline returns the node that directly follows. It only leaves the
+// spans around the node, since the content of other nodes has to stay inside.
+func getNextInline(node *html.Node) *html.Node {
+	for node.NextSibling == nil {
+		if node.Parent == nil || dom.NodeName(node.Parent) != "span" {
+			return nil
+		}
+		node = node.Parent
+	}
+	return node.NextSibling
+}
+
 func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*html.Node {
 	var collectedNodes []*html.Node
 
-	node = node.NextSibling
+	node = getNextInline(node)
 	for node != nil {
 		name := dom.NodeName(node)
-		if name == "span" {
+		if name == "span" && node.FirstChild != nil {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetNextNeighborNode(node)
+			node = node.FirstChild
+		} else if name == "span" {
+			node = getNextInline(node)
 		} else if matchFn(node) {
 			collectedNodes = append(collectedNodes, node)
-			node = dom.GetNextNeighborNodeExcludingOwnChild(node)
+			node = getNextInline(node)
 		} else {
 			// Return the collected nodes
 			return collectedNodes
-- 
2.43.0


From f5d91288f5067b026f53a6cd2df782f55832a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:33 +0000
Subject: [PATCH 40/48] fix: spaces were added to code that has code inside of
 it

---
 internal/domutils/add_space.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index f26c0d7..6e3314a 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -40,10 +40,21 @@ func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *ht
 
 	return nil
 }
+
+// isInsideCode says whether the content of the node is code, where every space matters.
+func isInsideCode(node *html.Node, isCodeNode func(*html.Node) bool) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if isCodeNode(p) || dom.NodeName(p) == "pre" {
+			return true
+		}
+	}
+	return false
+}
+
 func AddSpace(ctx context.Context, doc *html.Node, isOuterNode, isInnerNode func(*html.Node) bool) {
 	node := doc
 	for node != nil {
-		if isOuterNode(node) {
+		if isOuterNode(node) && !isInsideCode(node, isInnerNode) {
 			firstChild := getFirstChildNode(node, isInnerNode)
 			if firstChild != nil {
 				prev := getPrevTextNode(node)
-- 
2.43.0


From afe94c1ddb176a083e1cd66ee28fd904889405e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:33 +0000
Subject: [PATCH 41/48] fix: a carriage return in code, titles and alternative
 texts ended the line

---
 internal/textutils/collapse_code.go | 1 +
 plugin/commonmark/render_code.go    | 5 +++++
 plugin/commonmark/render_image.go   | 2 ++
 plugin/commonmark/render_link.go    | 1 +
 4 files changed, 9 insertions(+)

diff --git a/internal/textutils/collapse_code.go b/internal/textutils/collapse_code.go
index 47772e2..712e7d2 100644
--- a/internal/textutils/collapse_code.go
+++ b/internal/textutils/collapse_code.go
@@ -7,6 +7,7 @@ import (
 func CollapseInlineCodeContent(content []byte) []byte {
 	// TODO: what about other characters like the reset char? Maybe unicode.IsSpace?
 	content = bytes.ReplaceAll(content, []byte{'\n'}, []byte{' '})
+	content = bytes.ReplaceAll(content, []byte{'\r'}, []byte{' '})
 	content = bytes.ReplaceAll(content, []byte{'\t'}, []byte{' '})
 
 	content = bytes.TrimSpace(content)
diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 469e848..473e6a7 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -33,6 +33,7 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 		// No stripping occurs if the code span contains _only_ spaces.
 		// But newlines would end the line (or even the paragraph).
 		codeContent = bytes.ReplaceAll(codeContent, []byte("\n"), []byte(" "))
+		codeContent = bytes.ReplaceAll(codeContent, []byte("\r"), []byte(" "))
 		w.WriteRune(fenceChar)
 		w.Write(codeContent)
 		w.WriteRune(fenceChar)
@@ -69,6 +70,10 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	code, infoString := getCodeWithoutTags(n)
 
+	// A carriage return is also a line ending
+	code = bytes.ReplaceAll(code, []byte("\r\n"), []byte("\n"))
+	code = bytes.ReplaceAll(code, []byte("\r"), []byte("\n"))
+
 	if bytes.HasSuffix(code, []byte("\n")) {
 		code = code[:len(code)-1]
 	}
diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 83cac9c..f8b807d 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -45,9 +45,11 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 
 	title := dom.GetAttributeOr(n, "title", "")
 	title = strings.ReplaceAll(title, "\n", " ")
+	title = strings.ReplaceAll(title, "\r", " ")
 
 	alt := dom.GetAttributeOr(n, "alt", "")
 	alt = strings.ReplaceAll(alt, "\n", " ")
+	alt = strings.ReplaceAll(alt, "\r", " ")
 
 	// The alt description will be placed between two square brackets `[alt]`
 	// so make sure that those characters are escaped.
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 9919b18..c98028f 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -60,6 +60,7 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 
 	title := dom.GetAttributeOr(n, "title", "")
 	title = strings.ReplaceAll(title, "\n", " ")
+	title = strings.ReplaceAll(title, "\r", " ")
 
 	l := &link{
 		Node:  n,
-- 
2.43.0


From e1ff2956229e0c550b2eec8e87586f5bc6a3a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:37 +0000
Subject: [PATCH 42/48] fix: adjacent bold, code or strikethrough elements
 inside of each other were not merged

---
 plugin/strikethrough/strikethrough.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index 74fa966..09e36a2 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -42,6 +42,10 @@ func (s *strikethroughPlugin) Name() string {
 	return "strikethrough"
 }
 func (s *strikethroughPlugin) Init(conv *converter.Converter) error {
+	// Merging strikethrough nodes can place the bold or code nodes inside of
+	// them next to each other (and the other way around). So it is done
+	// before and after the commonmark plugin merges those.
+	conv.Register.PreRenderer(s.handlePreRender, converter.PriorityStandard-10)
 	conv.Register.PreRenderer(s.handlePreRender, converter.PriorityStandard)
 
 	conv.Register.EscapedChar('~')
-- 
2.43.0


From 5ebf24fa7b9f0cb79a2c4167d924e138a304c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:26 +0000
Subject: [PATCH 43/48] fix: words of summary, legend, center, menu and search
 elements were joined with those around them

---
 plugin/base/base.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugin/base/base.go b/plugin/base/base.go
index de50a8e..1aad333 100644
--- a/plugin/base/base.go
+++ b/plugin/base/base.go
@@ -40,6 +40,12 @@ func (b *base) Init(conv *converter.Converter) error {
 	conv.Register.TagType("input", converter.TagTypeRemove, converter.PriorityStandard)
 	conv.Register.TagType("textarea", converter.TagTypeRemove, converter.PriorityStandard)
 
+	// These are not in the `IsBlockNode` list, but (in the browser) their content
+	// is separated from what is around them. Otherwise words would be joined.
+	for _, tagName := range []string{"center", "dir", "legend", "menu", "search", "summary"} {
+		conv.Register.TagType(tagName, converter.TagTypeBlock, converter.PriorityLate)
+	}
+
 	// "tr" is not in the `IsBlockNode` list,
 	// but we want to treat is as a block anyway.
 	// conv.Register.TagStrategy("tr", converter.StrategyMarkdownBlock, converter.PriorityStandard)
-- 
2.43.0


From 4d619549fba19338008e39632d061ed118cf354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:12 +0000
Subject: [PATCH 44/48] fix: keep the words of blocks that become inline apart
 from the words around them

---
 internal/domutils/alternatives.go | 61 ++++++++++++++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index a3da350..507fb7e 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -2,6 +2,8 @@ package domutils
 
 import (
 	"context"
+	"strings"
+	"unicode"
 
 	"github.com/JohannesKaufmann/dom"
 	"golang.org/x/net/html"
@@ -37,7 +39,60 @@ func getMarkdownStructure(name string) string {
 	}
 }
 
+func isInsideCodeOrPre(node *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if name := dom.NodeName(p); name == "code" || name == "pre" {
+			return true
+		}
+	}
+	return false
+}
+
+// needsSpaceBefore says whether the words of the node would be joined
+// with the words before it.
+func needsSpaceBefore(node *html.Node) bool {
+	for p := node; p != nil && dom.NodeName(p) != "body"; p = p.Parent {
+		prev := p.PrevSibling
+		if prev == nil {
+			continue
+		}
+		if prev.Type == html.TextNode {
+			return strings.TrimRightFunc(prev.Data, unicode.IsSpace) == prev.Data
+		}
+
+		// A heading is followed by a "br" (once it also got replaced).
+		name := dom.NodeName(prev)
+		return name != "br" && !dom.NameIsHeading(name)
+	}
+	return false
+}
+
+// separate makes sure that the words of a block, that gets replaced with
+// an inline node, are not joined with the words around it.
+// The spaces that are not needed get collapsed.
+func separate(node *html.Node) {
+	if isInsideCodeOrPre(node) {
+		// In code every space matters...
+		return
+	}
+	newBefore := &html.Node{Type: html.TextNode, Data: " "}
+	node.Parent.InsertBefore(newBefore, node)
+
+	newAfter := &html.Node{Type: html.TextNode, Data: " "}
+	node.Parent.InsertBefore(newAfter, node.NextSibling)
+}
+
+func inlineAlternative(ctx context.Context, node *html.Node) {
+	node.Data = "span"
+	separate(node)
+}
+
 func headingAlternative(ctx context.Context, node *html.Node) {
+	if needsSpaceBefore(node) && !isInsideCodeOrPre(node) {
+		newBefore := &html.Node{Type: html.TextNode, Data: " "}
+		node.Parent.InsertBefore(newBefore, node)
+	}
+
 	node.Data = "strong"
 
 	newChild := &html.Node{
@@ -57,8 +112,12 @@ func blockquoteAlternative(ctx context.Context, node *html.Node) {
 }
 func preAlternative(ctx context.Context, node *html.Node) {
 	node.Data = "code"
+	separate(node)
 }
 func hrAlternative(ctx context.Context, node *html.Node) {
+	if node.NextSibling != nil {
+		separate(node)
+	}
 	dom.RemoveNode(node)
 }
 
@@ -93,7 +152,7 @@ func LeafBlockAlternatives(ctx context.Context, doc *html.Node) {
 			if ok {
 				fn(ctx, node)
 			} else {
-				node.Data = "span"
+				inlineAlternative(ctx, node)
 			}
 		}
 
-- 
2.43.0


From 500f65d5084a313620aec7e795851f4a1c96f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:59 +0000
Subject: [PATCH 45/48] fix: digits before a space are not part of the number
 of a list item

---
 internal/escape/elem_list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/escape/elem_list.go b/internal/escape/elem_list.go
index 3b9d4cb..a37a54b 100644
--- a/internal/escape/elem_list.go
+++ b/internal/escape/elem_list.go
@@ -41,17 +41,19 @@ func IsOrderedList(chars []byte, index int) int {
 		return -1
 	}
 
+	isIndentation := false
 	for i := index - 1; i >= 0; i-- {
 		if chars[i] == '\n' {
 			break
 		}
 		if chars[i] == ' ' {
+			isIndentation = true
 			continue
 		}
 		if chars[i] == placeholderByte {
 			continue
 		}
-		if IsDigit(chars[i]) {
+		if IsDigit(chars[i]) && !isIndentation {
 			continue
 		}
 
-- 
2.43.0


From 388f181e40bbdac93a898089e36036ef552b8fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:51 +0000
Subject: [PATCH 46/48] fix: the line breaks of a link in a table cell escaped
 the br tag

---
 plugin/table/2_collect.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 37675d8..6f477fa 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -111,6 +111,7 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 			if containsNewline(cell) {
 				if p.newlineBehavior == NewlineBehaviorPreserve {
 					// Replace newlines (also those of code blocks) with <br /> tags
+					cell = removeEscapedBlankLines(cell)
 					cell = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("\n"))
 					rows[i][j] = bytes.ReplaceAll(cell, []byte("\n"), []byte("<br />"))
 					continue
@@ -128,6 +129,21 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 	}
 }
 
+// The blank lines of a multiline link only contain a backslash, which
+// would escape the <br /> tag that comes after it.
+func removeEscapedBlankLines(cell []byte) []byte {
+	lines := bytes.Split(cell, []byte("\n"))
+	isAfterBreak := false
+	for i, line := range lines {
+		if isAfterBreak && string(line) == "\\" {
+			lines[i] = nil
+			continue
+		}
+		isAfterBreak = bytes.HasSuffix(line, []byte("  "))
+	}
+	return bytes.Join(lines, []byte("\n"))
+}
+
 // Sometimes a cell wants to *span* over multiple columns or/and rows.
 // What should be displayed in those other cells?
 // Render exactly the same content OR an empty string?
-- 
2.43.0


From 4e3ef348666d5c3a85638a099452b3fd3c532be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:53 +0000
Subject: [PATCH 47/48] fix: blocks inside of strikethrough elements left their
 syntax as text

---
 internal/domutils/alternatives.go     | 34 ++++++++++++++++++++++-----
 plugin/strikethrough/strikethrough.go |  1 +
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index 507fb7e..e799e13 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -134,6 +134,33 @@ var alternatives = map[string]func(ctx context.Context, node *html.Node){
 	"hr":         hrAlternative,
 }
 
+func replaceWithAlternative(ctx context.Context, node *html.Node) {
+	fn, ok := alternatives[dom.NodeName(node)]
+	if ok {
+		fn(ctx, node)
+	} else {
+		inlineAlternative(ctx, node)
+	}
+}
+
+// InlineAlternatives replaces the blocks inside of the nodes, that only
+// a plugin renders as inline nodes. See also LeafBlockAlternatives.
+func InlineAlternatives(ctx context.Context, doc *html.Node, isInline func(node *html.Node) bool) {
+	var finder func(node *html.Node, isInsideInline bool)
+	finder = func(node *html.Node, isInsideInline bool) {
+		structure := getMarkdownStructure(dom.NodeName(node))
+		if isInsideInline && (structure == "container_block" || structure == "leaf_block") {
+			replaceWithAlternative(ctx, node)
+		}
+
+		isInsideInline = isInsideInline || isInline(node)
+		for child := node.FirstChild; child != nil; child = child.NextSibling {
+			defer finder(child, isInsideInline)
+		}
+	}
+	finder(doc, false)
+}
+
 func LeafBlockAlternatives(ctx context.Context, doc *html.Node) {
 	var finder func(node *html.Node, isInsideLeafBlock bool, isInsideInline bool)
 	finder = func(node *html.Node, isInsideLeafBlock bool, isInsideInline bool) {
@@ -148,12 +175,7 @@ func LeafBlockAlternatives(ctx context.Context, doc *html.Node) {
 			//
 			// Instead of this weird output (## Heading > My Quote)
 			// we try to find alternatives (## Heading "My Quote")
-			fn, ok := alternatives[name]
-			if ok {
-				fn(ctx, node)
-			} else {
-				inlineAlternative(ctx, node)
-			}
+			replaceWithAlternative(ctx, node)
 		}
 
 		// - - - - - - - - - - - - - - - - - - - - - - //
diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index 09e36a2..b248112 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -57,6 +57,7 @@ func (s *strikethroughPlugin) Init(conv *converter.Converter) error {
 }
 
 func (s *strikethroughPlugin) handlePreRender(ctx converter.Context, doc *html.Node) {
+	domutils.InlineAlternatives(ctx, doc, nameIsStrikethough)
 	domutils.RemoveRedundant(doc, nameIsBothStrikethough)
 	domutils.MergeAdjacent(doc, nameIsStrikethough)
 }
-- 
2.43.0


From 0bde7f1af7a7a0e2ba62ab15d58c5fc0b57d6e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:54 +0000
Subject: [PATCH 48/48] fix: emphasis broke a link over several lines apart

---
 internal/textutils/escape_multiline.go  | 13 +++++++++++++
 plugin/commonmark/render_bold_italic.go |  2 ++
 plugin/commonmark/render_link.go        |  8 +++++++-
 plugin/strikethrough/strikethrough.go   |  2 ++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/textutils/escape_multiline.go b/internal/textutils/escape_multiline.go
index 3f08c4b..43f5b4f 100644
--- a/internal/textutils/escape_multiline.go
+++ b/internal/textutils/escape_multiline.go
@@ -13,6 +13,19 @@ var (
 	escapedNoContentLineBreak = []byte{'\\', '\n'}
 )
 
+// JoinLines places the content of all the (not empty) lines on a single line.
+func JoinLines(content []byte) []byte {
+	var lines [][]byte
+	for _, line := range bytes.Split(content, newlineBreak) {
+		line = bytes.TrimSpace(line)
+		if len(line) != 0 {
+			lines = append(lines, line)
+		}
+	}
+
+	return bytes.Join(lines, []byte{' '})
+}
+
 // EscapeMultiLine deals with multiline content inside a link or a heading.
 func EscapeMultiLine(content []byte) []byte {
 	parts := bytes.Split(content, newlineBreak)
diff --git a/plugin/commonmark/render_bold_italic.go b/plugin/commonmark/render_bold_italic.go
index 50586fc..96d6369 100644
--- a/plugin/commonmark/render_bold_italic.go
+++ b/plugin/commonmark/render_bold_italic.go
@@ -20,6 +20,8 @@ func (c commonmark) getDelimiter(n *html.Node) []byte {
 	}
 }
 func (c commonmark) renderBoldItalic(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
+	ctx = ctx.WithValue("is_inside_emphasis", true)
+
 	var buf bytes.Buffer
 	ctx.RenderChildNodes(ctx, &buf, n)
 
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index c98028f..744c886 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -89,7 +89,13 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 	// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 	// since `EscapeMultiLine` also takes care of newlines.
 	trimmed = textutils.TrimConsecutiveNewlines(trimmed)
-	trimmed = textutils.EscapeMultiLine(trimmed)
+	if isEnabled, ok := ctx.Value("is_inside_emphasis").(bool); ok && isEnabled {
+		// The delimiters of the emphasis are put around _every_ line,
+		// which would break the link apart.
+		trimmed = textutils.JoinLines(trimmed)
+	} else {
+		trimmed = textutils.EscapeMultiLine(trimmed)
+	}
 
 	l.before = leftExtra
 	l.content = trimmed
diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index b248112..3f7d34c 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -95,6 +95,8 @@ func (s strikethroughPlugin) handleRender(ctx converter.Context, w converter.Wri
 	return converter.RenderTryNext
 }
 func (s strikethroughPlugin) renderStrikethrough(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
+	ctx = ctx.WithValue("is_inside_emphasis", true)
+
 	var buf bytes.Buffer
 	ctx.RenderChildNodes(ctx, &buf, n)
 
-- 
2.43.0

