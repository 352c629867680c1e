# The jobs of the checks; read by mkchecks.py.
SP = range(17)

TXT = ["the text contains neither U+0007 nor U+F002 (reserved marker characters, see package marker)",
       "the text contains no literal \"&lt;\" or \"&gt;\" (kept on purpose, issue 178)"]

# Long texts with 1 to 2 free bytes at the end, in the middle or in front: the constructs that need
# more characters than the free texts have.
LONG = ["#####", "######", "12345678", "123456789", "1.\t", "-- ", "* *", "___", "~~", "```", "== ", "<!-", "&amp", "  - ", "a\n- ", "a\n  =", "a\n    "]
def LG(fn, ctxs, pres=LONG, n=2, slow=lambda i, c: False):
    return [J(fn, f"l{i}n{n}c{c}", n=n, ctx=c, sp=dict(tpre=x), thorough=slow(i, c)) for i, x in enumerate(pres) for c in ctxs]
UNI = ["\u201c", "é", "\u3000a", "€", "😀", "\u2028a", "\ufeff"]
def UN(fn, ctx=0, n=1, us=UNI):
    return [J(fn, f"u{i}n{n}c{ctx}", n=n, m=1, ctx=ctx, sp=dict(tpre=u if ctx else u.replace("\u3000", "a\u3000").replace("\u2028", "b\u2028"), tmid="a", tpost=u[0]+"b" if i in (2, 5) else u)) for i, u in enumerate(us)]
LINKT = [("[a](", "u)"), ("[a]", ""), ("[", "](u)"), ("![a", "(u)"), ("<a", "b>"), ("<a@b", ">"), ("http:/", "/a.b"), ("[a]: ", "u"), ("`a", "`"), ("**a", "*"), ("_a", "_b"), ("a_b", "_"), ("&#3", ";"), ("&a", "p;")]
def LK(fn, ctx=0, n=2):
    return [J(fn, f"k{i}n{n}c{ctx}", n=n, ctx=ctx, sp=dict(tpre=a, tpost=b)) for i, (a, b) in enumerate(LINKT)]

RUNP = [("[a", "](u)"), ("![", "](u)"), ("[", "]: u"), ("`", "`"), ("``", "``"), ("````a", "```b"), ("~~`", "`"), ("**", "**"), ("<a ", "b>"), ("[a](", "u)"), ("[a](u \"", "\")"), ("[a", "][x]"), ("~~~", "~~~")]
def RN(fn, sep, n, m, alpha=3, ctx=0, ext=0, slow=False, **sp):
    k = "".join(sp.values()) and f"p{RUNP.index((sp['apre'], sp['bpost']))}" if sp else ""
    return J(fn, f"{sep}{n}{m}a{alpha}c{ctx}e{ext}{k}", n=n, m=m, alpha=alpha, ctx=ctx, ext=ext, thorough=slow, sp=dict(sp, sep=sep))
SEPS = ["br", "b", "em", "code", "a", "img", "span", "comment"]
check("C02", "every text of 2 bytes at 17 places (3 bytes in a paragraph, list item, quote and after a line break), 2 bytes after 17 longer beginnings of constructs, inside 14 inline constructs and next to 7 non-ASCII characters; thorough: 3 bytes at every place, 4 bytes in a paragraph",
      [J("C02_text", f"n2c{i}", n=2, ctx=i, cut=1) for i in SP] +
      [J("C02_text", f"n3c{i}", n=3, ctx=i, cut=1, thorough=i not in (0, 2, 4, 5)) for i in SP] +
      LG("C02_text", (0, 4)) + UN("C02_text") + LK("C02_text") +
      [J("C02_text", "n4", thorough=True, n=4, ctx=0)], TXT)
check("C03", "every text of 2 bytes at 17 places, 3 bytes in a paragraph, after a line break, in a list item and a quote, 2 bytes after 17 longer beginnings of block constructs at 3 to 6 places, 4 bytes over 14 structural characters and 5 bytes over \"-=*_ \"; two texts of 1 to 2 bytes with a line break or element between them at 5 places, also with the table plugin and a reader with tables; the block structure is read by goldmark, executed symbolically too",
      [J("C03_text", f"n2c{i}", n=2, ctx=i, cut=1) for i in SP] +
      [J("C03_text", f"n3c{i}", n=3, ctx=i, cut=1, thorough=i not in (0, 2, 4)) for i in SP] +
      [J("C03_text", f"a4c{i}", n=4, ctx=i, alpha=2, cut=2, thorough=i not in (0, 5)) for i in (0, 2, 4, 5, 9, 11)] +
      [J("C03_text", f"b5c{i}", n=5, ctx=i, alpha=4, cut=2, thorough=i not in (0, 4)) for i in (0, 2, 4, 5, 9)] +
      LG("C03_text", (0, 2, 4)) + LG("C03_text", (5, 11, 16), slow=lambda i, c: i > 3) + LG("C03_text", (0,), n=3, slow=lambda i, c: True) + UN("C03_text") +
      [RN("C03_runs", "br", n, m, 2, c, slow=n + m > 3 and c != 0) for n, m in ((1, 2), (2, 1), (2, 2)) for c in (0, 1, 2, 3, 4)] + [RN("C03_runs", x, 1, 1, 0, slow=x not in ("br", "code")) for x in SEPS] +
      [RN("C03_runs", "br", n, n, 6, c, 2, slow=n > 2) for n in (2, 3) for c in (0, 1, 2, 4)] + [RN("C03_runs", "b", 2, 2, 2, slow=True)] +
      [J("C03_text", f"a5c{i}", thorough=True, n=5, ctx=i, alpha=2) for i in (0, 2)], TXT)
check("C04", "every text of 2 bytes at 17 places, 3 bytes in a paragraph, inside a word, link, emphasis, 4 bytes over 14 inline characters in a paragraph and emphasis, 2 bytes inside 14 inline constructs, 2 bytes with 7 non-ASCII characters around; two texts of 3 (thorough: 4) bytes with a line break or one of 8 elements between them, also with strikethrough, and of 2 bytes as parts of 13 constructs that go over both; the structure is read by goldmark, executed symbolically too",
      [J("C04_text", f"n2c{i}", n=2, ctx=i, cut=1) for i in SP] +
      [J("C04_text", f"n3c{i}", n=3, ctx=i, cut=1, thorough=i not in (1, 7, 8)) for i in SP] +
      UN("C04_text") + UN("C04_text", 1) + UN("C04_text", 7, us=UNI[:3]) + LK("C04_text") + LK("C04_text", 8) +
      [RN("C04_runs", x, n, m, slow=n + m > 3) for x in SEPS for n, m in ((1, 2), (2, 1), (2, 2))] + [RN("C04_runs", x, 1, 1, 0) for x in SEPS] +
      [RN("C04_runs", x, 1, 1, ctx=c, slow=x != "br" and c != 0, apre=p, bpost=q) for x in ("br", "b", "code", "a") for c in (0, 1, 2, 3) for p, q in RUNP] + [RN("C04_runs", "br", 1, 1, ctx=5), RN("C04_runs", "br", 2, 1, ctx=5, slow=True)] +
      [RN("C04_runs", x, n, m, 7, 0, 1, slow=n + m > 3) for x in ["del"] + SEPS[:5] for n, m in ((1, 2), (2, 1), (2, 2))] +
      [J("C04_text", f"f{n}", n=n, ctx=0, alpha=5, thorough=n > 5) for n in (4, 5, 6)] + LG("C04_text", (0, 2), pres=["~~", "~~~", "```", "````a"]) +
      [J("C04_text", f"u{i}a", n=2, m=2, alpha=3, sp=dict(tpre=u, tmid="a", tpost=u), thorough=True) for i, u in enumerate(UNI[:2])] +
      [J("C04_text", f"a4c{i}", n=4, ctx=i, alpha=3, cut=2, thorough=i not in (0,)) for i in (0, 1, 7, 8, 9, 13)],
      TXT + ["no Unicode space other than space, tab, LF and CR at an edge of the text"])
check("C05", "2 bytes (3 in thorough) at every listed place; 4 bytes of the markers of blocks at 3 places",
      [J("C05_disabled", f"n{n}d{i}", n=n, ctx=i, thorough=n > 3 or n == 3 and i > 5) for i in range(9) for n in (2, 3, 4)] +
      [J("C05_smart", f"n{n}s{i}", n=n, ctx=i, thorough=n > 3) for i in range(3) for n in (2, 3, 4)] +
      [J("C05_inert", "n3", n=3), J("C05_inert", "n4", n=4, thorough=True), J("C05_spaced", "sp")] +
      [J("C05_blocks", f"b{i}c{c}", n=4, ctx=c, sp=dict(alpha=a)) for c in (0, 2, 3) for i, a in enumerate(("1.) a", "-+#=~ a", "12345.)", "5.67 \n", "-=\n a", ">#1 a", "!|$( )a"))] +
      [J("C05_blocks", f"l{i}", n=2, ctx=0, sp=dict(alpha="1.)#-+=~ a", tpre=x, tpost=y)) for i, (x, y) in enumerate((("aa ", " b"), ("12", ""), ("12345678", " a"), ("a 1", " b"), ("##", ""), ("##### ", " #"), ("--", "a"), ("1 ", " a")))], TXT[:1])
check("C06", "every text of 2 bytes, including the markers, at 30 places; 3 bytes (so that U+F002 is among them) at selected places; thorough: 3 bytes everywhere",
      [J("C06_markers", f"n2m{i}", n=2, ctx=i, cut=1) for i in range(30)] +
      [J("C06_markers", f"n3m{i}", n=3, ctx=i, cut=1, thorough=i not in (4, 17, 22)) for i in range(30)] +
      [J("C06_disabled", f"n2d{i}", n=2, ctx=i) for i in (0, 4, 5, 6, 9, 17, 18, 22, 23, 25, 26)] +
      [J("C06_disabled", f"n3d{i}", n=3, ctx=i, thorough=i != 17) for i in (0, 17)] +
      [J("C06_html", "n2", n=2), J("C06_html", "n3", n=3, thorough=True)])


# Trees. A shape names the places of text (letters, "?" for a symbolic byte of alpha), elements
# (T, U, V stand for any element of tags, tags2, tags3) and parts that are left out in a copy ([..]).
TREE = ["text of the tree shapes: letters and white space; element names as listed, attributes href and src fixed"]
WIDE = "a,b,em,i,u,s,small,mark,sub,sup,font,abbr,cite,q,time,label,span,bdi,ins,del,code,kbd,var,p,div,figure,figcaption,section,article,aside,main,nav,header,footer,address,details,summary,dl,dt,dd,ul,ol,li,blockquote,h1,h4,pre,table,td,th,tr,form,fieldset,button,select,option,center,hgroup,object,video,svg,math,picture,dialog,template,zz"
PBLK = "address,article,aside,center,dd,details,dialog,dir,dl,dt,fieldset,figcaption,figure,footer,form,header,hgroup,legend,main,menu,nav,search,summary"
ORD = "p,div,span,b,em,ul,ol,li,blockquote,h2,a,code,pre,section,u,del,table,td"
def T(func, pre, shapes, slow=(), **kw):
    kw = dict(kw); sp = {k: kw.pop(k) for k in ("tags", "tags2", "tags3", "alpha", "pre", "post") if k in kw}
    return [J(func, f"{pre}{i}", thorough=sh in slow, sp=dict(sp, shape=sh), **kw) for i, sh in enumerate(shapes)]

WS = "p,div,span,b,ul,li,h2,code,pre,br,hr,img,table,td"
INL = "span,b,em,a,u,strong"
BLK = "p,div,ul,li,h2,blockquote"
check("C09", "every assignment of white space (space, tab, newline or a letter) and of 14 elements to 3 tree shapes (collapsing), of 6 inline and 6 block elements to 5 shapes and of 27 to one (whole conversion); every text of 3 bytes in two elements at 4 places (collapsing)",
      T("C09_collapse", "k", ["a?T(?b?T(?)?)?c", "?T(?T(?T(?)))a", "T(?a?)T(?b?)T(?)?"], ["T(?a?)T(?b?)T(?)?"], tags=WS, alpha=" \ta") +
      T("C09_words", "w", ["aU(?T(?b?T(?c)?)?)d", "U(?a?)T(?b?)T(c?)?d", "U(aT(?)T(b?)T(?)_c)d", "aT(b){br}?T(?c)d"],
        ["U(?a?)T(?b?)T(c?)?d"], tags=INL, tags2=BLK, alpha=" \na") +
      T("C09_words", "h", ["aT(bU(c)d)e", "aT(?U(b))c", "U(aT(b))c", "aT(b{hr}()c)d", "aT(T(U(b))c)d"], tags="b,em,a,u,strong,i,del", tags2="h1,h2,h3,h4,h5,h6,blockquote,li,ul") +
      T("C09_words", "b", ["a?T(?b?U(?c)?d)?e"], tags="p," + PBLK, tags2="p,span,b," + PBLK, alpha=" a") +
      [J("C09_text", f"n{n}{m}c{c}", n=n, m=m, ctx=c, thorough=n + m > 3) for c in range(4) for n, m in ((2, 1), (1, 2), (3, 1), (2, 2))], TREE)
HYG = "p,div,span,b,ul,ol,li,blockquote,h2,a,code,br,hr,img,script,section,table,td"
check("C10", "every assignment of 18 elements and of white space to the tree shapes; every HTML text of 3 bytes, parsed symbolically too (2 bytes in a list item and heading)",
      T("C10_hygiene", "h", ["?T(?)?T(?)?", "a?T(?T(?))b", "?!(A)?T(!(A)?)", "aT(?T(?)?)T(?)b", "a?T(?T(?T(?)))?b"],
        ["aT(?T(?)?)T(?)b", "a?T(?T(?T(?)))?b"], tags=HYG, alpha=" \na") +
      [J("C10_html", "x3", n=3, conv=1), J("C10_html", "li", n=2, conv=1, sp=dict(pre="<ul><li>", post="</li></ul>")),
       J("C10_html", "h2", n=2, conv=1, sp=dict(pre="<p>a</p><h2>", post="</h2>"))], TREE)
REM = dict(tags="p,div,span,b,em,a,ul,ol,li,h2,blockquote,code,pre", tags2="script,style,noscript,iframe,textarea,zz,section,head")
check("C11", "every assignment of 13 elements around and inside of 8 kinds of removed elements in the tree shapes",
      T("C11_removed", "r", ["aT(b[U(AT(B)C)]c)d", "aT(bT(c[U(A)]d)e)f", "[!(A)]aT([!(B)]b[U(A)])[!(B)]_c", "a_[U(A)]_bT(_[!(A)]_)_c", "T({wbr}()a_[!(A)]_b)_[U(A)]_c", "T({img}()_[!(A)]_{br}()_[U(A)]_b)"], **REM), TREE)
CLN = "p,div,span,b,em,ul,ol,li,blockquote,h2,a,code,pre,section,u,del,kbd,dl,dt,strong,s,h6"
check("C12", "every assignment of 18 elements to the tree shapes (up to 4 nested or following elements), of 66 elements to three; the text is compared in the output and in what goldmark, executed symbolically, reads",
      T("C12_order", "o", ["aT(bT(c)d)T(e)f", "T(aT(b)T(c)d)", "aT(bT(cT(d)e)f)g", "T(a)T(b)T(c)T(d)", "{p}(a?T(b?c)?d)", "aT(bT(c)T(d)e)T(f)g", "aT(bT(cT(dT(e)f)g)h)i"],
        ["T(a)T(b)T(c)T(d)", "aT(bT(c)T(d)e)T(f)g", "aT(bT(cT(dT(e)f)g)h)i"], tags=ORD, gm=1) +
      T("C12_order", "w", ["aT(bT(c)d)e"], tags=WIDE, gm=1) +
      T("C12_order", "c", ["a_T(b_U(c)_d)_e", "T(U(V(a)_b)_c)_d", "T(a_{hr}()_b)_U(c{br}()d)", "{blockquote}(T(a_U(b))_c)", "{li}(T(a){img}()_U(b){table}({tr}({td}(c)))d)", "a_T(b_{a}(c{br}()U(d)e)_f)_g",
        "T(_a_)U(_b_)V(_c_)", "T({a}(U(a)_V(b))_c)_d", "T(a_{b}(b_U(c)_V(d))_e)"],
        tags=CLN, tags2=CLN, tags3="b,del,a,code,p,ul,h2", gm=1, clean=1, conv=1) +
      T("C12_order", "p", ["{pre}(aT(bU(c)d)e)", "{code}(aT(bU(c)d)e)"], tags=WIDE, tags2="span,b,code,a,button,select,p", gm=1), TREE)
EMP = ["b", "strong", "em", "i", "del", "s", "strike"]
def emph(i):
    sp = dict(tags="p,div,span,a,li,h2,blockquote,section", tags2=EMP[i], tags3="span,a,u,b,em,del")
    sh = [x.replace("E", EMP[i]) for x in ("{p}(x_U(a?b{br}?c?)?y)", "T(x{E}(aV(b)?c)_y)d", "{p}(x_{E}(aT(b)?)?{E}(?V(c)?)_y)", "{p}(x_{E}(T(?a?)b?)?y)")]
    cod = dict(tags="code,kbd,samp,tt,span", tags2="code,kbd,samp,tt,u", tags3="span,u,b,em,del")
    sh2 = [x.replace("E", EMP[i]) for x in ("{p}(x{E}(T(a))y)", "{p}(x{E}(T(a)bU(c))y)", "{p}(xV({E}(T(U(a))))y)", "{p}(x{E}(T(a)_b_U(c))y)",
                                    "{p}(x{E}(T(a)){span}(y))", "{p}({span}(x){E}(T(a))y)", "{p}({span}(x){span}(){E}(T(a)b){E}(U(c)){span}(){span}(y))", "{p}(x{E}({span}(T(a)))y)")]
    two = {0: "del,s,span,b", 2: "del,s,span,em", 4: "b,strong,span,del"}
    edge = T("C13_read", f"m{i}_", [x.replace("E", EMP[i]) for x in ("{p}(x{E}(aU(b)){E}(U(c)d)y)", "{p}(x_{E}(U(a)){E}(U(c)d)_U({E}(b))_y)")], strict=1, tag=i, tags2=two[i]) if i in two else []
    edge += T("C13_read", f"l{i}_", [x.replace("E", EMP[i]) for x in ("{p}(x_{E}(a_{a}(b{br}()T(c)_d)_e)_y)", "T(x_{E}(a_T({a}(b_T(c)_d))_e)_y)")], tag=i, tags="p,div,span,h2,li,blockquote,u,ul,ol")
    return edge + (T("C13_read", f"a{i}_", ["T(x_{E}(a){E}(b)){E}(c)_y".replace("E", EMP[i])], strict=1, tag=i, tags="p,div,span,a,li,h2,blockquote") +
            T("C13_read", f"u{i}_", ["T(x_{E}(a)U({E}(b)))U({E}(c))_y".replace("E", EMP[i])], strict=1, tag=i, tags="p,div,span,li,h2,blockquote", tags2="b,strong,span,i") + T("C13_read", "k", ["{p}(x_T({b}(a)){b}(b)_y)"], kf6=1, strict=1, tag=i, tags="u,font,small") if i == 0 else []) + T("C13_read", f"e{i}_", sh, tag=i, **sp) + (T("C13_read", f"c{i}_", sh2, tag=i, **cod) if i < 4 else [])
check("C13", "every text of 3 bytes (thorough: 4) inside of each emphasis element, 6 tree shapes with any of 8 block and 6 inline elements inside of it, and 4 with the code elements at its edges; read by goldmark",
      [J("C13_lines", f"n3t{i}", n=3, tag=i) for i in range(7)] +
      [J("C13_lines", f"n4t{i}", n=4, tag=i, thorough=True) for i in range(7)] +
      [j for i in (0, 2, 4) for j in emph(i)], TREE)
N1 = dict(tags="p,ul,ol,blockquote,h2,pre,hr,span", tags2="ul,ol,blockquote,div,p")
N2 = dict(tags="p,div,ul,ol,blockquote,h2,pre,section", tags2="ul,ol,blockquote,div,p")
N3 = dict(N1, tags2="ul,ol,blockquote")
NEST = [("aU(T(b)c)d", N1), ("U({li}(aT(b)c){li}(T(d)))e", N3), ("{blockquote}(aT(b)U({li}(c)){hr}()d)e", N2),
        ("{ul}({li}(T(a){ol}({li}(T(b){p}(c)))d){li}(e))", N1), ("{blockquote}({blockquote}(aT(b))T(c))d", N1),
        ("{ol}({li}(a{blockquote}(T(b)c)))", N1), ("U(aU(T(b)c)T(d))e", N2), ("U(U(a)T(b)U(c))", N2), ("U(a)U(b)U(c)d", N1),
        ("{ul}({li}(U(a)T(b))_{li}(T(c)))U(d)", N1)]
DEEP = [("U({li}(aV({li}(bU({li}(cT(d)e)))f))g)h", dict(N3, tags3="ul,ol")), ("{blockquote}(U(aV(bU(cT(d)e)f)g)h)i", dict(N2, tags2="blockquote,div,li", tags3="blockquote,ul,ol")),
        ("{ul}({li}({ul}({li}({ol}({li}({ul}({li}(T(a)b)){ol}({li}(U(c)))))))))d", N1)]
SLOWN = ("U(T()T(b))U(T(c)T()d)", N1)
def nest(fn, opts):
    sp = dict(tags="ul,ol,blockquote," + PBLK, tags2="p," + PBLK)
    return [J(fn, f"d{i}", sp=dict(sp, shape=sh), opt=opts[0]) for i, (sh, sp) in enumerate(DEEP)] + T(fn, "w", {"C16_nested": ["{ul}({li}(aT(b)c){li}(T(d)))e"], "C17_nested": ["{blockquote}(aT(b)cT(d))e"], "C18_nested": ["x{h2}(a)T(d)", "T(x{h2}(a)U(b))c"]}[fn], **sp) + [J(fn, f"s{i}o{o}", sp=dict(sp, shape=sh), opt=o) for o in opts for i, (sh, sp) in enumerate(NEST)] + \
           [J(fn, f"slow{o}", sp=dict(SLOWN[1], shape=SLOWN[0]), opt=o, thorough=True) for o in opts]
check("C16", "start attributes of 1 or 2 digits after each of the fixed digits, lists of up to 11 items; 13 tree shapes (14 in thorough) of nested lists, quotes and other blocks with 8 elements at every open place, and one with 28, read by goldmark",
      [J("C16_numbers", "n2", n=2), J("C16_numbers", "n2i11", n=2, items=11), J("C16_numbers", "n2i1", n=2, items=1), J("C16_numbers", "n3i2", n=3, items=2, sp=dict(digits="0129")),
       J("C16_numbers", "n1e8", n=1, items=3, sp=dict(pre="99999999")), J("C16_numbers", "n2e7", n=2, sp=dict(pre="9999999")),
       J("C16_numbers", "n1e19", n=1, sp=dict(pre="9999999999999999999"))] + nest("C16_nested", (0, 1, 2)), TREE)
QT = dict(tags="p,ul,ol,h2,pre,hr,span,blockquote", tags2="ul,ol,div,p")
check("C17", "13 tree shapes (14 in thorough) of nested quotes, lists and other blocks with 8 elements at every open place, and one with 28, read by goldmark, and the lines of a quote compared with those of its content",
      nest("C17_nested", (1, 0, 2)) +
      T("C17_lines", "l", ["{blockquote}(aT(b)c)", "{blockquote}(U(aT(b)c)T(d))", "{blockquote}(T(a)T(b)T(c))", "{blockquote}(U({li}(aT(b))T(c)))"], **QT), TREE)
check("C18", "every ASCII text of 3 bytes in a heading of level 1, 2 and 4 (2 bytes in every level), atx and setext, with and without a line break before and a # after it; tree shapes around headings",
      [J("C18_text", f"n{n}l{l}s{x}{k}", sp=sp, n=n, level=l, setext=x, thorough=n > 3)
       for n in (3, 4) for l, x in ((1, 0), (2, 1), (1, 1), (4, 0)) for k, sp in (("", {}), ("x", dict(pre="x")), ("h", dict(post="#")), ("s", dict(post=" #")))] +
      [J("C18_text", f"n2l{l}s{x}{k}", sp=sp, n=2, level=l, setext=x) for l in (2, 3, 4, 5, 6) for x in (0, 1) for k, sp in (("", {}), ("x", dict(pre="x")), ("h", dict(post="#")))] +
      [J("C18_link", f"c{c}a{a}", n=1, ctx=c, around=a) for c in (0, 1, 2) for a in (0, 1, 2)] +
      T("C18_nested", "h", ["aT(b)U(c)d", "{blockquote}(T(a)U(b))c", "{ul}({li}(T(a)b){li}(aU(b)))"], tags="h1,h2,h3,h4,h5,h6", tags2="h1,h3,h5,p,ul,hr,pre") +
      [j for c in (0, 3) for j in T("C18_blocks", f"b{c}_", ["{p}(x)T(aU(b)c){p}(y)", "{p}(x)T(_U(a)_U(b)){p}(y)", "{p}(x)T(aU(V(b)V(c))d{br}()e){p}(y)", "{p}(x)T(a_V(bU(c)U(d))_e){p}(y)"],
       tags="h1,h2,h5", tags2="p,div,ul,ol,li,blockquote,pre,h1,h3,section,table,b,span,code,dl", tags3="b,em,p,a,code,div,li", conv=c)] +
      [j for i, j in enumerate(nest("C18_nested", (2, 0, 1)))], TREE)
REW = "p,div,span,b,em,strong,i,a,ul,ol,li,h2,blockquote,code,pre,kbd"
SL27 = ["T(T(a))T(T(b))", "{p}(T(a)T(T(b)))T(c)", "T(a)T(T(T(b)))", "T(_aT()_T(b)_)_T(c)_"]
check("C27", "every assignment of 16 elements to the tree shapes; two shapes with every choice of inline elements next to each other over the borders of 9 elements; one with each of 66 elements in the middle",
      T("C27_rewrite", "t", ["T(aT(bT(c)d)e)", "T(a)T(T(b)c)d", "aT(T(bT(c)))d", "{span}(T(a))T(T(b))c"] + SL27, SL27[1:], tags=REW) +
      T("C27_rewrite", "m", ["T(U(a)U(b))U(c)d"], tags="p,div,span,a,li,blockquote,h2", tags2="b,em,a,code,kbd,span") +
      T("C27_rewrite", "n", ["T(xU(a)T(U(b)))U(c)d"], tags="p,div,span,a,li,blockquote,h2,b,pre", tags2="b,em,a,code,kbd,span") +
      T("C27_rewrite", "h", ["T(aU(b)c)d", "T(a{b}(U(b)))c", "T({span}(U(a)b))", "T(_U(a)_)b", "T(a{hr}()b)c"], tags="h1,h2,h3,h4,h5,h6,a,b,strong,em,i,code", tags2="h1,h2,h3,h4,h5,h6,a,blockquote,ul,ol,li,pre,p") +
      T("C27_rewrite", "w", ["T(aU(T(b))c)d"], tags="b,em,a,code,h2,li,p,blockquote", tags2=WIDE), TREE)
WR = dict(tags="p,div,span,b,em,a,ul,li,h2,blockquote,code")
S28 = ["aU(m{zz}(nT(d)n)o)g", "U(a{zz}(T(b)))c", "{zz}(aT(b))cT(d)", "aU(m{zz}(?nT(?)n?)o)g"]
check("C28", "each of the 3 rendering functions, every assignment of 11 elements inside of and 10 around the element, in the tree shapes",
      [j for f in (0, 1, 2) for j in
       T("C28_wrapper", f"f{f}s", S28, fn=f, strict=1, tags2="p,div,span,section", **WR) +
       T("C28_wrapper", f"f{f}n", S28, fn=f, strict=0, tags2="b,a,ul,li,h2,blockquote", **WR)] +
      [j for f in (0, 1) for j in T("C28_wrapper", f"f{f}a", S28[:1], fn=f, adj=1, strict=0, tags2="b,a,ul,li,h2,blockquote", **WR)], TREE)

ALL = "p,div,span,b,em,ul,ol,li,blockquote,h2,h6,a,code,pre,section,u,del,table,thead,tbody,tr,th,td,caption,br,hr,img,script,kbd,dl,dt,video,figure,zz,body,head,html,input,textarea,select,option"
TB = "{table}({tr}({td}(a){td}(b)){tr}({td}(c)))"
def A(key, shape, n=2, slow=False, nm="", dom="", pre="", conv=1):
    return J("C01_attr", f"{key}{nm}{n}c{conv}", sp=dict(key=key, shape=shape, domain=dom, pre=pre), n=n, conv=conv, thorough=slow)
check("C01", "every assignment of 39 elements to the tree shapes, with all plugins, other options, and escaping disabled; attributes start, rowspan, colspan, href, src, alt, title, class with every value of 2 bytes (3 in thorough); the domain with every value of 2 bytes (3 in quick alone); every HTML text of 3 bytes; steps of one path <= 4 million (no path of the listed inputs needs more)",
      [J("C01_tree", f"t{i}c{c}", sp=dict(shape=sh, tags=ALL), conv=c, thorough=slow) for i, (sh, c, slow) in enumerate(
        [("aT(bT(c)d)e", 1, False), ("aT(bT(c)d)e", 2, False), ("aT(bT(c)d)e", 6, False), ("T(a)T(b)", 5, False), ("T()T(T())", 5, False),
         ("aT(bT(c)d)T(e)f", 1, True), ("aT(bT(c)d)T(e)f", 5, True), ("aT(bT(c)d)T(e)f", 6, True), ("T(T(T()))", 5, True)])] +
      [J("C01_tree", "bare", sp=dict(shape="T(aT(b)c)", tags=ALL), conv=5, bare=1), J("C01_tree", "barer", sp=dict(shape="T()", tags=ALL), conv=1, bare=1)] +
      [A(k, TB, conv=c) for k in ("rowspan", "align", "role") for c in (1, 5)] + [A("colspan", TB, n, n > 1, conv=c) for n in (1, 2) for c in (1, 5)] +
      [A("colspan", TB, nm="x", n=1, pre="9999", conv=5)] +
      [A("start", "{ol}({li}(a){li}(b))"), A("start", "{ol}({li}(a){li}(b))", 3, True)] +
      [A(k, "{p}(x{a}(b)y)", n, n > 2, conv=c) for k in ("href", "title") for n, c in ((2, 1), (2, 5), (3, 1))] +
      [A("href", "{p}(x{a}(b)y)", nm="dom", dom="http://a.b/")] +
      [J("C01_domain", f"n{n}{i}", n=n, conv=1, sp=dict(pre=p, href=h)) for n, p, i in ((2, "", "a"), (2, "http://", "b"), (2, "http://[", "c"), (2, "%", "d"), (3, "", "e")) for h in ("/x",)] +
      [J("C01_domain", "rel", n=2, conv=1, sp=dict(pre="a", href="?x")), J("C01_domain", "img", n=2, conv=1, img=1)] +
      [A(k, "{p}(x{img}()y)", n, n > 2, nm="img") for k in ("src", "alt", "title") for n in (2, 3)] +
      [A("class", "{pre}({code}(x))"), A("class", "{pre}({code}(x))", nm="l", pre="language-"), A("class", "{pre}({code}(x))", 3, True)] +
      [J("C01_html", "x3", n=3, conv=1), J("C01_html", "x2e", n=2, conv=6)] +
      [J("C01_html", f"x2p{i}", n=2, conv=1, sp=dict(pre=a, post=b)) for i, (a, b) in enumerate([("<ul><li>", "</ul>"), ("<table><tr><td>", "</table>"), ("<pre>", "</pre>"), ("<a href='", "'>x</a>"), ("<!", ">x"), ("<p>&", ";")])] +
      [J("C01_html", "tag", n=2, conv=1, sp=dict(pre="<", post=">x", alpha="aphi1/ =!?-<\"'")), J("C01_html", "tagx", n=2, conv=1, thorough=True, sp=dict(pre="<", post=">x"))] +
      [J("C01_html", "x5", n=5, conv=1, thorough=True, sp=dict(alpha="<>/bpa =\"-"))],
      ["a rowspan above 1000 is outside the bound (its table has as many rows)"])
CELLT = "p,div,span,b,em,ul,ol,li,blockquote,h1,h2,h3,h6,a,code,pre,section,u,zz,i,strong,del,s,strike,kbd"
TSH = ["{table}({tbody}({tr}({td}(aT(b)c){td}(d)){tr}({td}(e){td}(T(f)))))g", "{table}({thead}({tr}({th}(T(a)){th}(b))){tbody}({tr}({td}(T(T(c)d)))))",
       "T(x{table}({tr}({td}(aT(b)){td}(c)){tr}({td}(d)))y)z", "{table}({tr}({td}(x{table}({tr}({td}(T(a)){td}(b)))){td}(T(c))))", "T(T({table}({tr}({td}(a){td}(b)){tr}({td}(d)))y))z", "T({table}({tr}({td}(T(aT(b))){td}(c)))T(y))z"]
def G(i, rows, slow=False, spans="1,2,3", **kw):
    return J("C19_grid", f"g{i}", thorough=slow, sp=dict(rows=rows, spans=spans), **kw)
check("C19", "tables of 2 to 4 rows with colspan and rowspan 1 to 3 (and invalid values) at up to 4 cells, both span behaviours, header promotion, empty rows, the 3 paddings; every ASCII text of 2 bytes (3 in thorough) as text, code, link, bold, alt, href, title, code block or paragraph in a cell, read by goldmark's table extension; 6 tree shapes in and around a cell with 25 elements",
      [J("C19_grid", f"h{h}r{i}", head=h, sp=dict(rows=r, spans="1,2")) for h in (1, 2, 3, 4, 5, 6) for i, r in enumerate(("ab,Cd,e,gh", "^ab,cD,e,gh") + (("Ab,cd", "^Ab,cD") if h in (1, 5, 6) else ()))] +
      [G(0, "Ab,cd"), G(1, "AB,cd"), G(2, "Ab,cD,e"), G(3, "AB,CD"), G(4, "^AB,cd"), G(5, "-A,-b,--,cD"), G(6, "AB,Cd,e", mirror=1),
       G(7, "-A,-b,--,cD", skip=1, promote=1, pad=2), G(8, "^-A,-b,--,cD", mirror=1, skip=1, promote=1, pad=1),
       G(9, "AB,cd", spans="0,-1,x,2,,+2, 2,1.5", mirror=1, promote=1), G(10, "AbC,Def,gH", slow=True, mirror=1), G(11, "^ABC,dE,f", slow=True, spans="1,2,4")] +
      [J("C19_cell", f"n{n}k{k}", n=n, kind=k, thorough=n > 2 and k in (5, 4)) for k in range(9) for n in (2, 3)] +
      [J("C19_cell", f"n{n}k7p", n=n, kind=7, preserve=1) for n in (2, 3)] +
      [J("C19_cell", f"pre{i}k{k}", n=2, kind=k, sp=dict(pre=p)) for i, p in enumerate(("a\\", "`", "|", "`` ")) for k in (0, 1)] +
      [j for c in (1, 5) for j in T("C19_tree", f"t{c}", TSH, TSH[-1:], tags=CELLT, conv=c)] +
      [J("C19_tree", "caption", conv=1, caption=1, sp=dict(tags=CELLT, shape="{table}({caption}(aT(b)){tr}({td}(T(c)){td}()){tr}())"))], TXT)
check("C07", "every text of 2 bytes as the code at 13 places, 3 bytes at 2 of them (thorough: at all), 5 bytes of fence characters, space and newline; in one or more pieces, with line breaks, with a language; both fences; every class attribute of 2 and 3 bytes around language-; 2 tree shapes with 9 elements inside of the code; read by goldmark",
      [J("C07_code", f"n2c{c}", n=2, ctx=c) for c in range(13)] + [J("C07_code", f"n3c{c}", n=3, ctx=c, thorough=c not in (3, 5)) for c in range(13)] +
      [J("C07_code", f"n3k{k}", n=3, ctx=3, kind=k, thorough=True) for k in range(1, 6)] +
      [J("C07_code", f"n2k{k}{e}", n=2, ctx=c, kind=k, noesc=e) for k, c in ((1, 1), (2, 5), (3, 5), (4, 4), (5, 7)) for e in (0, 1)] +
      [J("C07_code", "f5t1", n=5, ctx=4, tilde=1, sp=dict(alpha="`~\n a")), J("C07_code", "f5t0", n=5, ctx=2, thorough=True, sp=dict(alpha="`~\n a"))] +
      [J("C07_code", f"f4t{t}c{c}", n=4, ctx=c, tilde=t, sp=dict(alpha="`~\n ", pre="a\n")) for t in (0, 1) for c in (1, 3)] +
      [J("C07_lang", f"a{n}", n=n, sp=dict(pre="language-")) for n in (2, 3)] + [J("C07_lang", f"b{n}", n=n, tilde=1, sp=dict(pre="lang-")) for n in (2, 3)] +
      T("C07_tree", "t", ["x{pre}(aT(U(b))c)y", "{pre}(aT(b_)T(_U(c))d)U(y)"], tags="b,em,span,code,kbd,a,u,del,strong", tags2="b,em,span,code,kbd,a,u,del") +
      [J("C07_code", f"n2k6c{c}", n=2, ctx=c, kind=6) for c in (0, 1, 3)] + [J("C07_lang", f"o{o}{i}", n=2, on=o, sp=sp) for o in (1, 2, 3) for i, sp in enumerate((dict(pre="language-"), dict(pre="lang-"), dict(pre="a lang-c", post=" b"), dict(pre="a b ", post=" language-go")))] +
      [J("C07_lang", "c", n=2, tilde=1, sp=dict(post="language-x")), J("C07_lang", "d", n=2, sp=dict(pre="x ", post=" language-y"))],
      ["a CommonMark reader drops the white space of a blank line inside a list item: there lines of white space are compared as blank lines"])
check("C08", "every text of 2 and 3 bytes as the code at 10 places (thorough: 4 bytes at one), 5 to 6 bytes of backticks, spaces, backslashes, newlines and letters; the tags code, kbd, samp, tt; code of 1 to 3 bytes between two texts of 2 to 3 bytes over 8 characters; 4 tree shapes with 9 elements inside of and around code; read by goldmark",
      [J("C08_code", f"n{n}c{c}", n=n, ctx=c, thorough=n > 3) for n, cs in ((2, range(10)), (3, range(10)), (4, (1, 6))) for c in cs] +
      [J("C08_code", f"b5c{c}", n=5, ctx=c, sp=dict(alpha="`a ")) for c in (0, 1, 5)] + [J("C08_code", "s6", n=6, ctx=9, sp=dict(alpha="`a \\")), J("C08_code", "b7", n=7, ctx=6, thorough=True, sp=dict(alpha="`a \n"))] +
      [J("C08_code", f"n{n}{t}", n=n, ctx=1, sp=dict(tag=t)) for t in ("kbd", "samp", "tt") for n in (2, 3)] +
      [J("C08_runs", f"r{n}{m}{k}c{c}e{e}", n=n, m=m, k=k, alpha=7, ctx=c, ext=e, sp=dict(sep="code?"), thorough=n * m > 3) for n, m, k, c, e in ((1, 1, 1, 0, 0), (1, 1, 2, 0, 0), (1, 1, 3, 0, 0), (2, 1, 2, 0, 0), (1, 2, 2, 0, 0), (2, 1, 2, 0, 1), (2, 2, 2, 0, 0), (1, 1, 2, 1, 0), (1, 1, 2, 2, 0), (1, 1, 2, 3, 0), (1, 1, 2, 4, 0))] + [J("C08_runs", "rx", n=1, m=1, k=1, sp=dict(sep="code?"))] +
      T("C08_tree", "t", ["x{code}(aT(U(b))c)y"], exact=1, tags="b,em,span,code,kbd,a,u,del,strong", tags2="b,em,span,code,kbd,a,u,del") +
      T("C08_tree", "u", ["{p}(T(U(a)U(b))U(c)d)"], tags="b,em,span,code,kbd,a,del,strong", tags2="b,em,span,code,kbd,a,u,del") +
      T("C08_tree", "v", ["{p}(T(aU(b))U(c)d)", "{p}(xT(aU(b))T(U(c)d))"], tags="b,em,span,code,kbd,a,del,strong", tags2="b,em,span,code,kbd,a,del") +
      T("C08_tree", "k", ["{p}(xT(U(a))U(b)y)"], kf5=1, tags="u,font,small", tags2="code,kbd"),
      ["the code is compared up to white space (the converter collapses it, as a browser does)"])
LIN = dict(tags="p,div,span,b,em,u,del,ul,ol,li,h2,blockquote,code,pre,section,table,td", tags2="p,div,span,b,em,u,del,ul,ol,li,h2,blockquote,section,td")
LSH = ["{p}(x_{a}(mT(n)o)_y)", "{a}(T(m)T(n))", "x{a}(T(mT(n)o))y", "x{a}(m{img}()?{br}?n)y", "U(x{a}(mT(n)_)y)z", "U(U({a}(m)))", "{a}(mT(n))U({a}(m)o)", "{a}(m{hr}()n{br}()o)p", "U(x{a}(mT(n))U({a}(T(o))))"]
def L14(key, name, n=2, ctx=1, img=0, slow=False, **sp):
    return J("C14_attr", f"{key}{name}n{n}c{ctx}i{img}", n=n, ctx=ctx, img=img, thorough=slow, sp=dict(sp, key=key))
check("C14", "titles, destinations and alt texts of every 2 bytes (3 in thorough) at 15 places, link texts of every 2 bytes at 14 places; 5 bytes of quotes, brackets and backslashes; 9 tree shapes with 17 elements in and 14 around links; read by goldmark",
      [L14(k, "", ctx=c, img=i, slow=c in (2, 3, 4, 9) and k != "title") for k, i in (("title", 0), ("title", 1), ("href", 0), ("href", 1), ("alt", 1)) for c in range(15) if i or c not in (7, 10)] +
      [L14(k, "", 3, 12, 1, slow=k == "href") for k in ("title", "alt", "href")] +
      [L14("title", "q", 5, 14, 0, alpha="\"'\\a)\n "), L14("alt", "q", 5, 14, 1, alpha="]\\[a<`(", slow=True), L14("alt", "q", 4, 13, 1, alpha="]\\[a<`("),
       L14("alt", "h", 2, 12, 1, pre="<a b='", title="'>"), L14("title", "r", 2, pre="&l", img=1), L14("href", "o", 2, pre="a:"), L14("href", "o", 3, pre="a:", slow=True),
       L14("href", "p", 2, pre="%"), L14("href", "q", 1, pre="?a=%"), L14("href", "q", 2, pre="?a=%", slow=True), L14("href", "d", 2, pre="data:")] +
      [J("C14_text", f"n2c{c}t{t}", n=2, ctx=c, title=t) for c in (0, 1, 2, 3, 4, 5, 8, 9, 11, 12, 13, 14) for t in (0, 1)] +
      [J("C14_text", f"n3c{c}", n=3, ctx=c, title=1, thorough=c != 13) for c in (1, 11, 13)] +
      [j for c in (1, 5, 6) for j in T("C14_tree", f"t{c}", LSH, LSH[-1:], conv=c, **LIN)] +
      T("C14_tree", "m", ["{p}(x_{a}(mT(n)T(o))T(p)_y)"], tags="b,em,span,i,code,kbd,del,a"),
      TXT[:1] + ["the read alternative text is compared where it has no inline Markdown"])
def U(fn, name, n=2, slow=False, img=0, **sp): return J(fn, f"{name}{n}", n=n, img=img, thorough=slow, sp=sp)
check("C15", "URLs of every 2 bytes (3 in thorough) alone and after 12 prefixes; resolution of every 2 bytes and of 4 to 6 bytes of dots, slashes, question marks, colons against 7 domains and of every 2 bytes after 14 prefixes, compared with RFC 3986",
      [U("C15_same", "x"), U("C15_same", "x", 3, True), U("C15_same", "img", img=1, pre="/a")] +
      [U("C15_same", f"p{i}", pre=p) for i, p in enumerate(("?", "#", "a?b=", "/%2F", "http://", "http://[", "http://[::1]", "data:", "/a%2f", "tel:", "javascript:", "ftp://", "mailto:", "http://u@h/", "//h/"))] +
      [U("C15_same", "pct", 1, pre="/a%2F%", post="é"), U("C15_same", "q", 1, pre="?a=%"), U("C15_same", "q", 2, True, pre="?a=%"), U("C15_same", "ref", 2, pre="a&l"),
       U("C15_same", "al", 3, alpha="/?#%2F :&=+é("), U("C15_same", "al", 4, True, alpha="/?#%2F :&=+é("), U("C15_same", "al", 5, True, alpha="/?#%2F :&=+é("), U("C15_same", "mail", 3, pre="mailto:", alpha="/?#%2F :&=+\\(a"), U("C15_same", "js", 4, pre="javascript:", alpha="%2;\"a('[/\\")] +
      [U("C15_resolve", f"d{i}", domain=d) for i, d in enumerate(("a.b", "https://a.b/c/", "http://x:80/a/../b/c?d#e", "a.b/c", "HTTP://A/é/d", "http://[::1]:8/"))] +
      [U("C15_resolve", f"e{i}", 4, domain=d, alpha="./?#a:") for i, d in enumerate(("a.b", "https://a.b/c/", "http://x:80/a/../b/c?d#e", "a.b/c", "http://[::1]:8/"))] +
      [U("C15_resolve", "dots", 6, domain="http://x/a/b/c?d#e", alpha="./?a"), U("C15_resolve", "img", 4, img=1, alpha="./?#a:"), U("C15_resolve", "mix", 4, domain="a.b", alpha="./?#a: %2"), U("C15_resolve", "mix", 5, True, domain="a.b", alpha="./?#a: %2"), U("C15_resolve", "x", 3, True, domain="a.b/c")] +
      [U("C15_resolve", f"s{i}", domain=d, pre=p) for i, p in enumerate(("data", "http", "mailto", "javascript", "ftp", "tel", "#", "//", "./", "../", "?", "a:", "/%2F", "http://")) for d in ("http://a.b/c/d?e",)],
      ["no control character and no second # in the fragment; not // without a host, the path %2A, or a resolved path that begins with // (net/url changes these)"])

check("C20", "3 handlers of each of the 5 kinds with any priorities (64 bits), 3 to 4 with priorities 0 to 2, 14 and 30 handlers with up to 4 free priorities, registered by a plugin or later; renderers and unescapers with any answers; tag types with any priorities and kinds for 6 tags; two renderers with priorities 498 to 502 against those of the plugins for 11 tags",
      [J("C20_order", f"o{d}k{k}n{n}c{c}h{hi}", kind=d, k=k, step=n, hi=hi, cut=c, thorough=k == 5) for d in range(5) for k, n, hi, c in ((3, 1, 0, 0), (3, 1, 2, 0), (4, 1, 2, 2), (14, 5, 2, 7), (30, 10, 2, 0), (5, 1, 3, 2))] +
      [J("C20_first", f"f{k}k{x}c{c}", k=k, kids=x, cut=c, thorough=k == 4) for k, x, c in ((2, 0, 0), (2, 1, 1), (3, 0, 1), (3, 1, 0), (4, 1, 2))] +
      [J("C20_override", f"v{f}", first=f) for f in (0, 1)] + [J("C20_type", f"t{lo}", k=2, lo=lo) for lo in (0, 499)] + [J("C20_type", "t3", k=3, sp=dict(tags="zz,script"))] +
      [J("C20_unescape", f"u{k}", k=k, cut=k // 2) for k in (3, 4)] + [J("C20_plugins", "p")])

def O(fn, opt, name, n, slow=False, how=0, **sp):
    return J(fn, f"{opt}{name}{n}h{how}", n=n, how=how, thorough=slow, sp=dict(sp, opt=opt))
OA = "-*_+`~ a\n\xc3\xa9"
check("C26", "every pair of behaviours for links without target or content with 7 targets and 7 kinds of content; option values of every byte, of 2 to 4 bytes over 11 characters (rules: up to 9 over \"-*_ \"), the documented ones with a free byte in front, behind or in place of one; the option alone, between others, in a plugin registered later; 3 plugins (4 in thorough) of 8 kinds in any order, given at once or later",
      [O("C26_commonmark", o, "x", n, how=h) for o in ("em", "strong", "bullet", "fence", "rule") for n in (0, 1) for h in (0, 1, 2)] + [O("C26_commonmark", o, "x", 2, True) for o in ("em", "strong", "bullet", "fence", "rule")] +
      [O("C26_commonmark", o, "a", n, n > 3, how=h, alpha=OA) for o, ns in (("em", (2,)), ("strong", (2, 3)), ("bullet", (2,)), ("fence", (2, 3, 4)), ("rule", (2, 3))) for n in ns for h in (0, 1, 2)] +
      [O("C26_commonmark", "fence", f"s{i}_", 1, pre=p, post=q) for i, (p, q) in enumerate((("``", ""), ("```", ""), ("", "``"), ("~~~", ""), ("", "```"), ("`", "`")))] +
      [O("C26_commonmark", "rule", "al", n, n > 7, alpha="-*_ ") for n in (4, 5, 6, 7, 9)] + [O("C26_commonmark", "rule", f"s{i}_", 2, pre=p, alpha=OA) for i, p in enumerate(("   ***", "    **", "- -", "***"))] +
      [O("C26_commonmark", "heading", f"p{i}", n, how=h, pre=p, post=q, **(dict(alpha="atxseT \n") if n > 1 else {})) for n in (0, 1, 2) for i, (p, q) in enumerate((("", ""), ("atx", ""), ("setext", ""), ("", "tx"), ("sete", ""), ("", "atx"))) for h in (0, 2)] +
      [O("C26_table", o, f"p{i}", n, how=h, pre=p, post=q) for o, vs in (("span", ("empty", "mirror")), ("newline", ("skip", "preserve")), ("padding", ("aligned", "minimal", "none"))) for i, (p, q) in enumerate([("", "")] + [x for v in vs for x in ((v, ""), ("", v), (v[:-1], ""), ("", v[1:]), (v[:2], v[2:]))]) for n in (0, 1) for h in (0, 1)] +
      [J("C26_links", "l"), J("C26_switches", "s"), J("C26_plugins", "k3", k=3), J("C26_plugins", "k4", k=4, thorough=True)])

C21S = [("aT(bT(c)d)e", "aU(b)c"), ("T(a)", "U(aU(b)c)d"), ("T(a)T(b)", "aU(b)c")]
check("C21", "a converter used before for any of the tree shapes with 39 elements (with a domain and a context), then for one with 18; sequences of 3 conversions with 6 domains and 7 URLs; state and context operations of every 2 conversions with 2 or 3 of 5 elements; every HTML text of 2 and 3 bytes by all ways to convert and pieces of a reader; readers that fail after any byte; handlers that panic; iterations over a map in the repository in both orders",
      [J("C21_again", f"a{i}c{c}", sp=dict(shape=a, shape2=b, tags=ALL, tags2=ORD), conv=c, rounds=r, thorough=slow) for i, (a, b) in enumerate(C21S) for c, r, slow in ((1, 1, i != 1), (5, 2, i != 1), (6, 1, True))] +
      [J("C21_again", f"b{i}c{c}", sp=dict(shape=a, shape2=b, tags=ORD, tags2=REW), conv=c, rounds=1) for i, (a, b) in enumerate(C21S) for c in (1,)] +
      [J("C21_maps", f"m{i}c{c}", maps=True, sp=dict(shape=a, tags=ALL), conv=c) for i, a in enumerate(("aT(bT(c)d)e", "T(a)T(b)", "{p}(x{a}(T(a))y)")) for c in (1, 5)] +
      [J("C21_options", "o"), J("C21_state", "s2", k=2), J("C21_state", "s2n", k=2, nest=1), J("C21_state", "s3", k=3, nest=1, thorough=True)] +
      [J("C21_entry", f"e{n}d{d}", n=n, domain=d, thorough=n > 2) for n in (2, 3) for d in (0, 1)] + [J("C21_entry", "ea", n=4, sp=dict(alpha="<>/pbi a&")), J("C21_entry", "eh", n=2, domain=1, sp=dict(pre="<a href=/", post=">x</a>"))] +
      [J("C21_reader", "r"), J("C21_panic", "p", sp=dict(tags=ALL), conv=1), J("C21_panic", "p5", sp=dict(tags=ALL, shape="T(aT(b{zz}(c))d)e"), conv=5, thorough=True)])

check("C22", "two conversions by one converter, one of them of every tree of 1 to 2 elements with 39 tags and one of a document with 25 kinds of elements; a conversion and each of 15 registrations, two registrations; the functions of the package; two converters with the same plugins; in either order; the schedules of each path are all decided by the solver",
      [J("C22_convert", f"c{i}", race=True, sp=dict(shape=a, tags=ALL)) for i, a in enumerate(("aT(b)c", "T(a)"))] +
      [J("C22_convert", "d2", race=True, thorough=True, sp=dict(shape="aT(bU(c)d)e", tags=ALL, tags2=ORD)), J("C22_convert", "d3", race=True, thorough=True, sp=dict(shape="T(a)", tags=ALL, shape2="U(b)", tags2=ALL))] +
      [J("C22_register", f"s{i}", race=True, sp=dict(shape=a, tags=ALL)) for i, a in enumerate(("aT(b)c",))] +
      [J("C22_register", "r", race=True), J("C22_both", "b", race=True), J("C22_package", "k", race=True, sp=dict(tags=ORD)), J("C22_plugins", "p", race=True, sp=dict(tags=ALL))],
      ["two operations at a time; only sequentially consistent reorderings of the accesses of each path", "the replay runs under Go's race detector"])

S25 = ",".join(str(i) for i in range(21))
def S(name, shape, cls, tags="div b", slow=False, inc="", exc=""):
    return J("C25_select", name, thorough=slow, sp=dict(shape=shape, tags=tags, include=inc, exclude=exc), **{"class": cls})
check("C25", "pages of up to 4 elements in every nesting (5 in thorough), 2 to 6 tags, classes of every 1 to 3 characters of {m, x, space}; 21 selectors (types, classes, attributes, combinators, :first-child, :last-child, :only-child, :not, :has, groups, repeated flags) for either flag and every pair of them",
      [S(f"i{i}", a, c, inc=S25) for i, (a, c) in enumerate((("T(T)T", 2), ("T(T(T))", 2), ("T(TT)T", 1), ("T(T)T(T)", 1), ("TTT", 2)))] +
      [S(f"e{i}", a, c, exc=S25) for i, (a, c) in enumerate((("T(T)T", 2), ("T(T(T))", 2), ("T(TT)T", 1), ("T(T)T(T)", 1), ("TTT", 2)))] +
      [S("b0", "T(T)T", 1, inc=S25, exc=S25), S("b1", "T(T(T))", 1, inc="0,1,3,5,6,8,12,15", exc="0,1,3,5,6,8,12,15,11"),
       S("i5", "T(T)T", 0, tags="div b p li main span table h1", inc=S25), S("e5", "T(T)T", 0, tags="div b p li main span table h1", exc=S25),
       S("ih", "T(T)T", 0, tags="div head title b html body", inc=S25), S("eh", "T(T)T", 0, tags="div head title b html body", exc=S25)] +
      [S("ti", "T(T(T)T)T", 1, slow=True, inc=S25), S("te", "T(T(T)T)T", 1, slow=True, exc=S25), S("ti3", "T(T)T", 3, slow=True, inc=S25), S("te3", "T(T)T", 3, slow=True, exc=S25), S("tb", "T(TT)T", 1, slow=True, inc=S25, exc=S25)],
      ["with both flags nothing is claimed about elements around an included one that match the excluding selector"], pkg="hc")

check("C23", "2 inputs (3 in thorough) below 3 directories with every name of 1 to 4 characters over {a, b, .} (and others), up to 2 other entries (files, directories, links) in the output directory, the output directory being the one of the inputs, names that the program itself gives, files bounded in size so that writes fail; one input (file or standard input) and 23 output paths; with and without --output-overwrite",
      [J("C23_dir", f"n{a}{b}", len0=a, len1=b) for a, b in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 1))] +
      [J("C23_dir", f"o{a}{b}{n}", len0=a, len1=b, old=n) for a, b, n in ((1, 1, 1), (1, 3, 1), (1, 1, 2))] +
      [J("C23_dir", "oh", len0=1, len1=3, old=1, oldlen=2, sp=dict(ext=".html", alpha="ab.")), J("C23_dir", "oe", len0=1, len1=2, old=1, oldlen=3, sp=dict(oldext="")),
       J("C23_dir", "same14", len0=1, len1=4, sp=dict(dirs="in/", out="in/", **{"in": "in/*"}, alpha="a.md")), J("C23_dir", "same41", len0=4, len1=4, sp=dict(dirs="in/", out="in/", **{"in": "in/*"}, alpha="amd."), thorough=True),
       J("C23_dir", "ext", len0=1, len1=1, k=2, sp=dict(ext=".md", dirs="in/ in/out/", out="in/out/")),
       J("C23_dir", "l", len0=1, len1=2, limit=4), J("C23_dir", "e", len0=1, len1=2, empty=1), J("C23_dir", "b", len0=1, len1=2, links=1),
       J("C23_dir", "k3", k=3, len=1), J("C23_dir", "k32", k=3, len=2, thorough=True), J("C23_dir", "k3o", k=3, len=1, old=1, thorough=True), J("C23_dir", "n33", len0=3, len1=3, old=1, thorough=True), J("C23_dir", "n44", len0=4, len1=4, thorough=True), J("C23_dir", "k4", k=4, len=1, thorough=True)] +
      [J("C23_collide", f"c{n}", len=n, sp=dict(alpha="ab")) for n in (1, 2)] +
      [J("C23_file", f"f{l}", limit=l) for l in (0, 4)] + [J("C23_file", "fe", empty=1)],
      ["the file system of the checks is a model in memory (harness/hc/vos.go); samples of the paths are replayed natively in a scratch directory", "no other process changes the files meanwhile"], pkg="hc")

BOOLS = ["plugin-strikethrough", "plugin-table", "opt-table-skip-empty-rows", "opt-table-header-promotion", "opt-table-presentation-tables"]
STRS = {"opt-table-span-cell-behavior": ["mirror", "empty"], "opt-table-newline-behavior": ["preserve", "skip"], "opt-table-cell-padding-behavior": ["aligned", "minimal", "none"], "domain": ["http://d.e/f/g"], "opt-strong-delimiter": ["__", "**"]}
ALLF = BOOLS + [f"{k}={v}" for k in STRS for v in STRS[k]]
FORMS = ALLF + [f"{b}={v}" for b in BOOLS for v in ("true", "0", "x")] + [f"{k}=x" for k in STRS] + [f"{k}=" for k in STRS] + list(STRS) + ["version", "v", "help", "h", "!__", "!mirror", "!x", "!", "!--", "!-", "x", "plugin-tables", "v=false", "help=1", "=", "exclude-selector=[", "exclude-selector= ", "include-selector=p:foo", "include-selector="]
def FL(name, k, pool, slow=False, alpha=None, **kw):
    return J("C24_flags", name, k=k, thorough=slow, sp=dict(pool=",".join(pool), **({"alpha": alpha} if alpha else {})), **kw)
TBL = ["plugin-table"] + [x for x in ALLF if "table-" in x]
check("C24", "every command line of 2 arguments of 64 forms (flags, values, spellings, unknown ones), of 1 with 4 kinds of dashes, of 3 table flags, values and flag names of up to 3 free characters; a document with every kind of content that options change; standard streams that are terminals, fail at any operation or read in pieces; 24 inputs (missing, directories, patterns, links to nothing) with 5 outputs; 23 output paths; two inputs with every name of up to 2 characters, links and size limits",
      [FL("f1", 1, FORMS, dash=1), FL("f2", 2, FORMS), FL("t3", 3, TBL), FL("d2", 2, [x for x in FORMS if "=" not in x], slow=True, dash=1), FL("f3", 3, FORMS, slow=True), FL("t4", 4, TBL + ["plugin-strikethrough"], slow=True)] +
      [FL(f"v{i}", k, p, alpha=a) for i, (k, p, a) in enumerate(((1, ["opt-strong-delimiter=?0", "opt-strong-delimiter=?1", "opt-strong-delimiter=?2", "opt-strong-delimiter ?2", "opt-strong-delimiter=?3"], "a*_=- "), (2, ["plugin-table", "opt-table-span-cell-behavior=?1", "opt-table-newline-behavior=?1", "opt-table-cell-padding-behavior ?1"], "am "), (2, ["plugin-table=?1", "opt-table-skip-empty-rows=?1"], "01tTx"), (1, ["domain=?2", "domain ?1"], "a/:.?"),
         (1, ["?0", "?1", "?2"], "vhx=- 1"), (1, ["!?0", "!?1", "!?2", "!-?2"], "vhx=- 1"), (1, ["v=?1", "version=?2"], "1t0x=")))] +
      [J("C24_streams", "s"), J("C24_input", "i")] + [J("C24_file", f"f{l}", limit=l) for l in (0, 4)] + [J("C24_file", "fe", empty=1)] +
      [J("C24_dir", "d", len0=1, len1=2), J("C24_dir", "b", len0=1, len1=2, links=2), J("C24_dir", "l", len0=1, len1=2, limit=4), J("C24_dir", "e", len0=1, len1=1, limit=4, empty=1), J("C24_dir", "o", len0=1, len1=2, old=1), J("C24_dir", "k3", k=3, len=1, links=3, thorough=True)],
      ["the text of messages and of the usage is not looked at", "failing Stat of a standard stream is left out"], pkg="hc")
