#!/usr/bin/env python3
"""Adds the fix: commits of /repo to known_findings.json."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {
 "ab5c9d0":("C03",'with the table plugin <p>a|b<br>-|-</p> was not escaped, and a reader with tables saw a table'),
 "53d80ef":("C04",'<p><del>x</del>~</p> gave ~~x~~~, which is not a strikethrough'),
 "e5028de":("C04",'<p>a<em>x</em>*</p> gave a*x**, which is not an emphasis'),
 "4a3da51":("C04",'<p>[a<br>b](c)</p> was not escaped and became a link over two lines'),
 "a245105":("C04",'<p>````a<br>```b</p> and <p>~~`a`</p>: only the first character of a literal code fence was escaped, the others began inline code'),
 "ebdc397":("C24",'a failed write to the standard output (a full disk) ended with exit status 0'),
 "baf7909":("C23",'inputs in/a.html, in/s/a.html and in/a.2cf30051f8.html with --output-overwrite: the second and the third were written to the same file'),
 "8ecbed3":("C23",'--input "in/*" --output in/ --output-overwrite with in/a.html and in/a.md: a.md was replaced before it was read and its content lost'),
 "696cb8c":("C25",'--include-selector div on <div>a<div>b</div>c</div> moved the inner match behind the outer one: "ac b"'),
 "9e871c7":("C25",'--exclude-selector li:last-child removed every item, and --include-selector span --exclude-selector "div span" excluded nothing: the selector was matched against the tree already changed'),
 "c733a85":("C26",'a horizontal rule of "    ***" was accepted, which is a code block'),
 "57a6fc7":("C03","text at the start of a line of a block quote was not escaped: <blockquote># a</blockquote> became a heading in the quote"),
 "6903beb":("C17","the lines of a code block inside a block quote were not prefixed, so the code left the quote"),
 "3e47a52":("C18","a heading whose text ends with # but has no marker in front of it panicked or lost a character"),
 "c59bbf4":("C14","a backslash at the end of a title escaped the closing quote"),
 "be05f89":("C14","a bracket after a backslash in an alt text ended the image text"),
 "cc7e790":("C19","a | after a backslash inside a table cell opened another cell"),
 "adaa1e8":("C19","newlines of a code block inside a table cell ended the row"),
 "2e50a6f":("C01","rowspan=\"99999999999\" allocated cells without limit"),
 "0a1a49f":("C07","class=\"language-`\" or a language with spaces broke the opening fence"),
 "681c10c":("C16","<ol start=\"-5\"> or a start of more than nine digits gave markers that are not list markers"),
 "092a44e":("C03","<ul><li>- -</li></ul> gave a thematic break instead of an item"),
 "19c27de":("C22","reading the tag types raced with registering one"),
 "7fb3460":("C22","reading the registered plugins raced with registering one"),
 "2f84c5e":("C20","more than 12 handlers of one priority ran in another order than registered"),
 "601dc91":("C26","delimiters such as \"_*\" and horizontal rules such as \"-a-\" were accepted"),
 "cedea23":("C27",'<b><h2><b>a</b></h2></b>: after merging nodes or replacing a heading by bold text a bold element stood inside another'),
 "1ef1c5e":("C16",'an item that begins with a divider of the same character as the list marker (- ---) was read as one thematic break'),
 "05eadbe":("C09",'a<h2></h2>b: an empty heading, list or quote between two words left them joined'),
 "f6e30c1":("C18",'<h1>x<br></h1> with setext headings gave a paragraph and a thematic break instead of a heading'),
 "97f90a3":("C19",'<tr><td colspan=2>A<td colspan=2>B: the second cell with a colspan, or a rowspan next to another one, ended up in another column'),
 "b1b50bc":("C07",'class="language-~" with ~~~ fences: the language became a part of the fence'),
 "2f61a6f":("C08",'a<code>&#10;&#10;</code>b: newlines in an otherwise empty inline code split the paragraph'),
 "9b2e633":('C14','<img alt="`"> `: a backtick or < in an alt text could end behind the image, which was then no image'),
 "1f1b0d4":('C15','href="/a%2Fb c": the encoded slash became a slash if another character of the path had to be encoded'),
 "e1fda2e":('C14','href="mailto:a\\*" or href="a&#12;b": backslashes and control characters stayed in the destination'),
 "fa0738e":('C15','href="http://[::1]/" became http://%5B::1%5D/'),
 "a62ace6":("C19",'<h2><table>..</table></h2>: the pipes of the table were left in the text of the heading'),
 "f4e263b":("C27","<p><b>a</b><b>b</b></p><b>c</b> or <a><code>x</code><code>a</code></a><code>c</code>: the text c moved into the paragraph or link in front of it"),
 "f5d9128":("C07","<pre>a<b><code>c</code></b>d</pre>: spaces were added to the code"),
 "afe94c1":("C07","<pre>a&#13;b</pre>, also in inline code, titles and alternative texts: the carriage return stayed, which is a line ending in Markdown"),
 "e1ff295":("C13","<del>a<b>b</b></del><del><b>c</b>d</del> gave ~~a**b****c**d~~, the same with code"),
 "388f181":("C19","<td><a>c<p>d</p></a></td> with preserved newlines gave c<br />\\<br />d, in which the second <br /> is text"),
 "4e3ef34":("C12","<del><h3>a</h3></del> gave ~~### a~~, the same with lists, quotes, dividers and code blocks in del, s and strike"),
 "0bde7f1":("C13","<b>a <a>b<br>c</a></b> gave **a [b**  \\n**c](/u)**, in which neither the emphasis is closed nor the delimiters are gone from the link"),
 "4d61954":("C09","<b>a<h1>b</h1>c</b> gave ab, the same with lists, dividers and code blocks in links, headings and emphasis"),
"500f65d":("C05","1 1) gave 1 1\\)"),
"5ebf24f":("C09","<details><summary>a</summary>b</details> gave ab, the same with legend, center, menu, dir and search"),
}
k = json.load(open(V + "/known_findings.json"))
k = [e for e in k if e["status"] != "fixed"]
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        p, w = P[h[:7]]
        k.append({"id": "F-" + h, "property": p, "status": "fixed", "what": f"fixed: property={p} {h} {w}"})
open(V + "/known_findings.json", "w").write("[\n" + ",\n".join(json.dumps(e) for e in k) + "\n]\n")
