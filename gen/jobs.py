"""Symbolic jobs per property and tier."""
from core import *
from docs import *

ASSUMPTIONS = [
    "LLVM IR of the harness and jotdown, as compiled by rustc (debug assertions and overflow checks on), is interpreted; "
    "the compiler backend is outside the encoding, but every explored path is also run natively on one solver model and compared",
    "the encoded build uses the crate's deterministic feature (ordered map) in place of the randomly seeded hash map",
    "memory allocation never fails",
    "inputs outside the stated templates and lengths are not covered",
]

ANY = NOCTL
SYN = Set("ab *_-+`#>|:.[](){}\"'\\!<=^~$%1i\n")
LEAD2 = Set(bytes(range(0xC2, 0xE0)), "utf8-lead2")
UTF2 = [LEAD2, CONT]
UTF3 = [Set(bytes(range(0xE1, 0xED)), "utf8-lead3"), CONT, CONT]
UTF4 = [Set(bytes(range(0xF1, 0xF4)), "utf8-lead4"), CONT, CONT, CONT]


def around(name, oracle, docs, dom, choice=(), ins=True, sub=True):
    js = []
    for n, d in enumerate(docs):
        if sub:
            js += subst1("%s%d" % (name, n), oracle, d, dom, choice)
        if ins:
            js += insert1("%s%d" % (name, n), oracle, d, dom, choice)
    return js


def windows(name, oracle, docs, dom, k, choice=(), step=1):
    js = []
    for n, d in enumerate(docs):
        js += window("%s%d" % (name, n), oracle, d, dom, k, choice, step)
    return js


def utf8(name, oracle, docs, choice=(), step=3):
    """Arbitrary multi-byte characters at positions of the documents."""
    js = []
    for n, d in enumerate(docs):
        for k, u in enumerate((UTF2, UTF3, UTF4)):
            for i in range((n + k) % step, len(d), step * 3):
                js.append(Job("%s%d.u%d_%d" % (name, n, k + 2, i), oracle, [d[:i], u, d[i:]], choice))
    return js


def scale(name, oracle, choice=()):
    """Sizes beyond every small limit: counters, fence lengths, nesting, widths."""
    D = []
    A = lambda *p: D.append(p)
    A("`" * 255, LOWER, "`" * 255)
    A("`" * 256, LOWER, "`" * 256)
    A("`" * 257, LOWER, "`" * 257, "`\n")
    A("`" * 300, "\n", LOWER, "\n", "`" * 300, "\nb")
    A(":" * 260, " x\na\n", ":" * 259, Set(":\n"), "\nb\n", ":" * 260, "\nc")
    A("-" * 257, Set("-a \n"))
    A("." * 258, Set(". a"))
    A("# " * 3, "#" * 255, Set("# \n"), " a")
    A("#" * 65534, Set("# "), Set("# "), " a\n")
    A("> " * 70, Set("a>- "), "\n")
    A("- " * 70, Set("a-> "), "\n")
    A("{_" * 80, LOWER, "_}" * 80)
    A("[" * 80, LOWER, "](u)" * 80)
    A("|" + "a|" * 260 + "\n|" + "-:|" * 130, Set(":-"), "-|" + "-|" * 129 + "\n")
    A("9" * 18, DIGIT, ". a\n")
    A("9" * 18, Set("09."), Set("9. "), " a\n")
    A("1844674407370955161", DIGIT, ". a\n")
    A("(" + "m" * 12, Set("mdclxvi)"), Set("mdclxvi)"), ") a\n")
    A("".join("[^%d]" % i for i in range(40)), "[^", DIGIT, "]\n")
    A("".join("# a\n\n" for i in range(30)), "# ", Set("ab"), "\n")
    A("".join("{.a%d}" % i for i in range(40)), "\n", "b", "\n")
    A("a" * 260, Set(" *{\n"), "b" * 260)
    A("\n" * 300, Set("a\n"), "\n" * 5)
    A("a\\\n" * 90, LOWER)
    A("[a](" + "b\n" * 90, Set("b)\n"), ")\n")
    A("[a]: " + "b\n " * 90, LOWER, "\n\n[a][]\n")
    A("{" + "".join(".a%d k%d=v%d " % (i % 7, i, i) for i in range(300)), Set(" ab%#="), "}\n# h\n")
    A("a{" + "k=\"" + "v \n" * 100, Set("\\\"vk"), "\" .b}\n")
    A("[^a] " * 300 + "[^", Set("abc"), "]\n\n[^a]: b\n\n[^b]: c\n")
    A("{_" * 260, LOWER, "_}" * 255, Set("_*}"), "}\n")
    A("*a " * 300, LOWER, Set("*_ "), "_ b*" * 3, "\n")
    A("*a _b " * 130, LOWER, Set("*_ "), "*_" * 130, "\n")
    A("[" * 260, LOWER, "]" * 255, Set("](u"), "(v)\n")
    A("![" * 140, LOWER, "](u)" * 140, "\n")
    A("'" * 257, Set("'a \""), "b" + "'" * 257 + "\n")
    A("- " + "." * 300, Set(".-a"), "-" * 300, Set(".-a"), "\n")
    A(" " * 260, Set("-a#>|"), " a\n" + " " * 262, Set("-ab"), " b\n")
    A("- a\n\n" + " " * 258, Set("-ab"), " b\n" + " " * 257, Set("-ac"), " c\n")
    A("".join(" " * (2 * i) + "- a\n\n" for i in range(40)) + " " * 40, Set(" -b"), Set(" -b"), " c\n")
    A("".join(":" * (3 + i) + "\n" for i in range(60, 0, -1)) + "a\n", ":" * 30, Set(":a\n"), "\n" + "".join(":" * (4 + i) + "\n" for i in range(40)) + "b\n")
    A("".join("%d. a\n" % i for i in range(250, 258)), Set("12a-"), "58. b\n")
    A("".join("# %s\n\n" % ("a" if i % 2 else "b c") for i in range(260)) + "# ", Set("ab1"), "\n\n[a][] [b c][]\n")
    A("<a:" + "b" * 300, Set("b> :"), "c>\n")
    A(":" + "b" * 300, Set("b: -"), ":\n")
    A("[" + "a " * 150, Set("a*]b"), "][]\n\n[" + "a " * 150 + "a]: u\n")
    A("|a|\n" * 260, Set("|-b"), "-|\n|b|\n^ " + "c\n" * 260)
    A("a\n" * 260, Set("a#->"), " b\n" + "> " * 20 + "c\n" * 30)
    A("``` " + "a" * 300, Set("a` \n"), "\n" + "b\n" * 260 + "```\n")
    A("[a]: u\n\n" * 130, "[", Set("ab"), "][]\n\n" + "[b]: v\n\n" * 130)
    A("a {%" + "c " * 150, Set("%} c"), "%} b\n")
    A("- [ ] a\n" * 130, Set("-1+*"), Set(" ["), "[x] b\n")
    A(": a\n\n  b\n\n" * 130, Set(":- "), " c\n")
    return [Job("%s.scale%d" % (name, i), oracle, list(d), choice) for i, d in enumerate(D)]


def huge(name, oracle, choice=()):
    """Sizes beyond 16 bits."""
    D = []
    A = lambda *p: D.append(p)
    A("`" * 65537, LOWER, "`" * 65537, "` b\n")
    A("`" * 65540, "\n", LOWER, "\n```\n", "`" * 65540, "\nb\n")
    A("a\n\n" + ":" * 65540, "\na\n::::\n", ":" * 65540, Set(":\n"), "\nb\n")
    A("a " + "-" * 65539, Set("-a "), "b\n")
    A("a" * 65536, Set(" *a"), "*b*\n")
    A(" " * 65538, Set("-a>"), " a\n\n b\n")
    A("- a\n\n" + " " * 65537, Set("-a"), " b\n")
    A("\n" * 65537, Set("a\n"), "b\n")
    A("a {%" + "c" * 65540, Set("%}c"), "%} b\n")
    A("[a](" + "b" * 65540, Set(")b\n"), ") c\n")
    A("[a]: " + "b" * 65540, Set(" b\n"), "c\n\n[a][]\n")
    A("[" + "a" * 65540, Set("]a"), "][]\n\n[" + "a" * 65540 + "a]: u\n")
    A("|" + "a" * 65540, Set("|a"), "|b|\n")
    A("# " + "a" * 65540, Set(" a"), "b\n")
    A("> a\n" * 4200, "> ", Set("a>"), "\n")
    A("- a\n" * 4200, "- ", Set("a->"), "\n")
    A("*a* " * 4200, Set("*a"), "b*\n")
    return [Job("%s.huge%d" % (name, i), oracle, list(d), choice) for i, d in enumerate(D)]


# Pieces of documents: lines and inline markup.
LINES = [
    "a\n", "\n", " b\n", "  c\n", "    e\n", "# h\n", "## i\n", "# h\n# j\n", "> q\n", ">\n", "- l\n", "-\n", "+ p\n", "1. o\n", "i. r\n", "2) s\n", ": d\n", "- [x] t\n", "  - m\n",
    "```\n", "``` x\n", "````\n", "~~~\n", "``` =html\n", ":::\n", "::: v\n", "::::\n", "|a|b|\n", "|-|:-|\n", "|-:|\n", "^ k\n", "[l]: u\n", "[^n]: f\n", "[^n]:\n", "[l][] x[^n]\n",
    "{.x}\n", "{#y z=w}\n", "{.w\n", "}\n", "***\n", "[h][]\n", "*e\n", "e*\n", "`v\n", "  > n\n", "> - g\n", "- > # t\n",
]
WORDS = [
    "a", " ", "\n", "*", "_", "{*", "*}", "{_", "_}", "[", "]", "](u)", "][l]", "][]", "](", ")", "![", "`", "``", "$`", "$$`", "{.x}", "{#y", "}", "{}", "{% c %}", "{=", "=}", "{+", "+}", "\"", "'", "{'", "'}",
    "--", "...", "\\", "\\\n", "<u:v>", "<", ":s:", ":", "[^n]", "`b`{=html}", "{=html}", "^", "~", "|", "!", "{-", "-}", "(", "$",
]


def pieces(name, oracle, table, n, keys=None, pre="", post="", choice=(), hole=None):
    """Documents of n pieces of the table (those with one of the keys, and plain text), one job per first piece;
    with a hole: an arbitrary byte in front of the last piece; a key "@k" stands for the piece "k"."""
    t = [p for p in table if keys is None or any(k in p if k[0] != "@" else k[1:] == p for k in keys) or p in ("a", " ", "a\n", "\n")]
    head = b"".join(p.encode() + b"\xff" for p in t) + b"\xfe"
    any_ = Set(bytes(range(0x80, 0x80 + len(t))), "piece")
    rest = [any_] * (n - 1)
    if hole is not None:
        rest = rest[:-1] + [hole] + rest[-1:]
    return [Job("%s.%d" % (name, i), 1000 + oracle, [head, pre, bytes([0x80 + i])] + rest + [post], choice) for i in range(len(t))]


def composed(name, oracle, tier, choice=(), n=3):
    """Every combination of lines and of inline markup."""
    k = n + (tier == "thorough")
    js = pieces(name + ".lines", oracle, LINES, k, post="z\n", choice=choice) + pieces(name + ".words", oracle, WORDS, k, post=" z\n", choice=choice)
    if n == 3 and (oracle not in (1, 80, 250) or tier == "thorough"):
        js += pieces(name + ".line", oracle, LINES, 2 + (tier == "thorough"), post="z\n", choice=choice, hole=ANY)
        js += pieces(name + ".word", oracle, WORDS, 2 + (tier == "thorough"), post=" z\n", choice=choice, hole=ANY)
    return js


# pieces of interest per property: keys of lines and their number, keys of words and their number
COMPOSED = {
    11: (("{", "}", "# h\n", "- l", "> q", ":::\n", "|a", "[l]:", "***", "```\n"), 4, ("{.x", "{#y", "@}", "{}", "{%", "@*", "[", "]", "`", "@\""), 4),
    12: (("# ", "{", "> q", "- l", "[h]", "*e", ":::\n"), 4, ("*", "`", "[", "]", "{.", "--", "\"", "\\", ":s:"), 3),
    13: (("[", "{", "# h", "> q", "  c", "- l"), 4, ("[", "]", "*", "{.", "\\", "`", "\n", "!"), 4),
    15: (("- ", "-\n", "+ ", "1.", "i.", "2)", ": d", "[x]", "***"), 4, None, 0),
    16: (("- ", "-\n", "+ ", ": d", "> q", "  c", "    e", "# h\n", "```\n", "{.x"), 4, None, 0),
    17: (("`", "~", "  c", "> q", "- l", ":::\n", "|a"), 4, ("`", "$", "{=", "*", "\\", "\n", "{.x"), 4),
    18: (("|", "^", "> q", "- l", "  c", "`v", "{.x"), 4, ("|", "`", "\\", "*", "\n", "["), 4),
    19: ((), 0, ("\"", "'", "-", ".", "\\", ":s", "\n", "*"), 4),
    20: ((), 0, ("@*", "@_", "{*", "*}", "{_", "_}", "{=", "=}", "@^", "@~", "{}", "@`", "@[", "](u)", "{.x}", "@\n"), 4),
    21: ((), 0, ("[", "]", "(", ")", "!", "<", "*", "\n", "`", "{.x"), 4),
}
# longer sequences of few pieces
SHORT = {
    11: [(["{.a}\n", "{#b\n", "c=d}\n", "\n", "# e\n", "> {.f}\n", "g\n"], 6), (["{.a}", "{", "b=c", "}", " ", "\n", "d", "*", "e*"], 5)],
    12: [(["# a\n", "## b\n", "### c\n", "{.x}\n", "\n", "> # d\n", "e\n"], 6)],
    13: [(["[l]: u\n", " v\n", "\n", "{.a}\n", "[l][]\n", "# l\n", "> [l]: w\n"], 6)],
    15: [(["h. a\n", "i. b\n", "j. c\n", "v) d\n", "(a) e\n", "2. f\n", "- g\n", "\n"], 5)],
    16: [(["- a\n", "  - b\n", "    c\n", "\n", "- - d\n", "> - e\n", "  f\n"], 6), ([": a\n", "\n", "  b\n", "  - c\n", "  : d\n", "e\n"], 6)],
    17: [(["```\n", "````\n", "~~~ =html\n", ":::\n", "> ```\n", "> a\n", "- ```\n", "  b\n"], 5), (["`", "``", "```", " ", "\n", "a", "$", "\\", "*"], 5)],
    18: [(["|a|b|\n", "|-|:-|\n", "|:-:|\n", "^ c\n", "\n", "  d\n", "|`|\n"], 6)],
    19: [(["'", "\"", "a", " ", "{'", "'}", "*", "\n"], 5), (["-", "--", "a", " ", "\\", "\n", "...", "}"], 6)],
    20: [(["*", "_", "a", " ", "{*", "*}", "[", "](u)"], 6)],
    21: [(["[", "]", "(", ")", "a", "![", "](u)", "][l]", "\n", "`"], 5)],
    22: [(["```\n", "````\n", "~~~\n", ":::\n", "::::\n", "::: a\n", "b\n"], 6), ([": a\n", "\n", "  b\n", "> c\n", "> # d\n", "# e\n", "- f\n"], 6), (["[^n]: a\n", "\n", "  b\n", "[l]:\n", "c\n", "***\n", "|d|\n"], 6)],
}
AFTER = "\n\n[l]: v\n\n# a\n"


def short(name, prop, tier):
    js = []
    for i, (t, n) in enumerate(SHORT[prop]):
        js += pieces("%s.short%d" % (name, i), 200 + prop, t, n + (tier == "thorough"), post="z\n" if t[0].endswith("\n") else AFTER)
    return js


def related(name, prop, tier):
    """Every combination of the pieces that concern the property."""
    lk, ln, wk, wn = COMPOSED[prop]
    t = tier == "thorough"
    js = short(name, prop, tier)
    if ln:
        js += pieces(name + ".lines", 200 + prop, LINES, ln + t, lk, post="z\n")
        js += pieces(name + ".line", 200 + prop, LINES, min(3, ln - 1) + t, lk, post="z\n", hole=ANY)
    if wn:
        for i, p in enumerate(("", "|", "> ", "# ") if prop != 18 else ("|", "|a|\n|-|\n|")):
            if t or i < 2:
                js += pieces("%s.words%d" % (name, i), 200 + prop, WORDS, wn - (i > 0 and prop != 18) + t, wk, pre=p, post=("|" if p[-1:] == "|" else "") + AFTER)
        js += pieces(name + ".word", 200 + prop, WORDS, wn - 2 + t, wk, post=AFTER, hole=ANY)
    return js


def general(name, oracle, tier, choice=(), n3=True, dense=True):
    """Inputs of every shape, for properties of all documents."""
    js = [exhaustive(name + ".any", oracle, n, ASCII, choice=choice) for n in (0, 1, 2)]
    if n3:
        js.append(exhaustive(name + ".any", oracle, 3, ASCII, choice=choice))
    js += around(name + ".doc", oracle, DOCS, ANY, choice, ins=dense)
    js += around(name + ".more", oracle, MORE, ANY, choice, ins=dense)
    js += [Job(name + ".rich.sub%d" % i, oracle, [RICH[:i], ANY, RICH[i + 1:]], choice) for i in range(0, len(RICH), 1 if tier == "thorough" else 4)]
    js += utf8(name + ".utf", oracle, DOCS, choice)
    js += scale(name, oracle, choice)
    js += huge(name, oracle, choice)
    js += composed(name, oracle, tier, choice)
    if tier == "thorough":
        js.append(exhaustive(name + ".syn", oracle, 4, SYN, choice=choice))
        js += windows(name + ".doc2", oracle, DOCS, ANY, 2, choice)
    return js


def C01(tier):
    js = general("total", 1, tier)
    js += [Job("total.utf%d" % k, 1, [u] + [ASCII] * 2) for k, u in ((2, UTF2), (3, UTF3), (4, UTF4))]
    js += [Job("total.utfmid%d" % k, 1, [SYN, u, SYN]) for k, u in ((2, UTF2), (3, UTF3), (4, UTF4))]
    js += [exhaustive("attrs.any", 2, n, ASCII) for n in (1, 2, 3)]
    js += [exhaustive("attrs.braced", 2, n, ASCII, "{", "}") for n in (1, 2, 3)]
    js += around("attrs.doc", 2, ATTRS, ASCII)
    js += [Job("attrs.utf%d" % i, 2, [d[:i], UTF2, d[i:]]) for d in ATTRS[:2] for i in range(len(d))]
    js += [Job("attrs.open", 2, ["{a=\"", ASCII, ASCII, ASCII])]
    return js


ATTRS = [
    "{.a #b c=d e=\"f g\" %h%}",
    "{a=\"b\\\"c\nd\\\\ e\" .f}{.g}",
    "{%a\nb% .c}",
]


def C02(tier):
    return general("tree", 10, tier)


def C03(tier):
    return general("span", 20, tier)


def C04(tier):
    js = []
    for l in (0, 1, 2):
        js += around("esc%d" % l, 30, DOCS, ANY, [l], ins=(l == 1)) if l != 2 else around("esc2", 30, DOCS, Set("<>&\"'\n a"), [2], ins=False)
    js += [exhaustive("esc.any", 30, n, ASCII, choice=[1]) for n in (1, 2, 3)]
    js += utf8("esc.utf", 30, DOCS, [1])
    js += scale("esc", 30, [1]) + huge("esc", 30, [2]) + composed("esc", 30, tier, [1])
    return js


def C05(tier):
    js = general("nest", 40, tier, [0])
    for l in (1, 2):
        js += around("nest%d" % l, 40, DOCS, ANY, [l], ins=False)
    return js


def C06(tier):
    js = general("lay", 50, tier)
    js += around("layi", 50, DOCS, ANY, [Set(bytes(range(5))), Set(bytes(range(4)))], ins=False)
    return js


def C07(tier):
    return general("map", 60, tier)


def C08(tier):
    # layout, position of the failure, kind of the byte sink
    lays = Set(bytes(range(3)))
    js = []
    for n, d in enumerate(DOCS):
        js.append(Job("api.fail%d" % n, 70, [d], [lays, Set(bytes(range(128))), Set(bytes([0, 1, 2, 128]))]))
    js += around("api.doc", 70, DOCS, ANY, [0, 40, 1], ins=False)
    js += [exhaustive("api.any", 70, n, ASCII, choice=[0, 5, 1]) for n in (0, 1, 2)]
    js += scale("api", 70, [0, 90, 1]) + huge("api", 70, [1, 120, 2]) + composed("api", 70, tier, [0, 30, 1], 2)
    js.append(Job("api.rich", 70, [RICH], [lays, Set(bytes(range(256))), Set(bytes([1, 129]))]))
    return js


def C24(tier):
    js = []  # without the size that needs most instructions
    for n, d in enumerate(DOCS):
        js.append(Job("val.clone%d" % n, 80, [d], [Set(bytes(range(64)))]))
    js.append(Job("val.clonerich", 80, [RICH], [Set(bytes(range(256)))]))
    js += [j for j in general("val", 80, tier, [5]) if j.name != "val.huge7"]
    return js


SP = Set(" \n")
PRE = ["", "> ", "- ", "1. ", ": ", ":::\n", "[^n]: ", "a\n", "a\n\n", "- a\n\n  ", "# ", "```\n", "|a|\n"]


def pick(*keys):
    """The documents that contain one of the keys."""
    return [d for d in DOCS + MORE if any(k in d for k in keys)]


def ref(name, prop, tier, docs, dom=ANY):
    """Comparison with the reference: documents with one byte replaced or inserted."""
    js = around(name + ".doc", 200 + prop, docs, dom)
    if tier == "thorough":
        js += windows(name + ".win", 200 + prop, docs, dom, 2)
        js += utf8(name + ".utf", 200 + prop, docs, step=1)
    js += scale(name, 200 + prop)
    js += huge(name, 200 + prop)
    js += related(name, prop, tier)
    return js


def grid(name, oracle, templates, choice=(), **doms):
    return [Job("%s%d" % (name, i), oracle, hole(t, **doms), choice) for i, t in enumerate(templates)]


def C09(tier):
    A = Set("a.#=\"\\%{} \n-:0?\r")
    n = 5 if tier == "thorough" else 4
    js = [exhaustive("attr.any", 90, k, ASCII) for k in (0, 1, 2, 3)]
    js += [exhaustive("attr.in", 90, k, ASCII, "{", "}") for k in (1, 2, 3)]
    js += [exhaustive("attr.open", 90, n, A, p, "}") for p in ("{", "{.a ", "{#", "{k=", "{k=\"", "{%", "{.a}{", "{k=\"v\"", "{k")]
    js += [exhaustive("attr.end", 90, n, A, p) for p in ("{.a", "{k=\"v\\", "{%c%", "{.a}")]
    js += around("attr.doc", 90, ATTRS, ASCII)
    js += windows("attr.win", 90, ATTRS, ASCII, 2)
    for i, k in enumerate((255, 256, 257, 300, 65535, 65536, 65540)):
        X = Set("a \\\"%}\n")
        for m, (u, p, q) in enumerate([("a", "{.", "}"), ("b", "{k=\"", "\"}"), ("\\\"", "{k=\"a", "\"}"), ("c ", "{%", "%}"), ("\n", "{", ".a}"), ("d", "{", "=e}"), ("f", "{a=", "}"), ("g", "{#", ".b}"), ("a\n", "{k=\"", "\"}")]):
            js.append(Job("attr.size%d_%d" % (m, i), 90, [p, u * k, X, q]))
        if k < 1000:
            js += [Job("attr.many%d_%d" % (m, i), 90, ["{", u * k, X, ".b}", X]) for m, u in enumerate((".a ", "a=b ", "%c%", "#d\n", "e=\"f\""))]
    js += [Job("attr.utf%d_%d" % (k, i), 90, [d[:i], u, d[i:]]) for k, u in enumerate((UTF2, UTF3, UTF4)) for d in ATTRS for i in range(len(d) + 1)]
    return js


def C10(tier):
    tri = [Set(bytes(range(4))), Set(bytes(range(5))), Set(bytes(range(5)))]
    js = [Job("set%d" % n, 100, [], tri * n) for n in ((1, 2, 3) if tier == "thorough" else (1, 2))]
    # a third and fourth element next to each other's key
    js += [Job("set.mix%d" % i, 100, [], [bytes(p)] + tri + [bytes(q)] + ([bytes(p)] + tri if tier == "thorough" else []))
           for i, (p, q) in enumerate([((0, 3, 1), (2, 0, 2)), ((2, 0, 0), (0, 3, 1)), ((2, 2, 1), (2, 1, 1)), ((3, 3, 1), (1, 3, 1)), ((1, 3, 1), (2, 2, 3))])]
    js += around("look.doc", 100, ATTRS + ["{.a .b class=c id=d #e k=f k=g}", "{class=\"\" .x class=y}{#z}"], ASCII)
    js += [exhaustive("look.in", 100, k, Set("a.#= \"}"), "{", " .b id=c class=a}") for k in (3, 4)]
    return js


def C11(tier):
    docs = pick("{.", "{#", "{k", "{%", "{}")
    js = ref("attach", 11, tier, docs)
    n = 5 if tier == "thorough" else 4
    I = Set("a {}.*`[]\n\\")
    for k, p in enumerate(["", "a", "*b*", "`c`", "[d](e)", "[f]", "![g](h)", "<i:j>", "$`k`", "\"l\"", "{=m=}", "a {.b", "> a{.b\n> "]):
        js.append(exhaustive("attach.in%d_" % k, 211, n, I, p, ".z} w"))
    B = Set("ab{}.#>-:|` \n")
    for k, p in enumerate(["{.a}\n", "{#a}\n\n", "> {.a}\n", "- {.a}\n", "{.a}\n{.b}\n", "# h\n{.a}\n", "{.a"]):
        js.append(exhaustive("attach.blk%d_" % k, 211, 3, ANY, p, " c\n\nd\n"))
        js.append(exhaustive("attach.seq%d_" % k, 211, 4, B, p, "a\n"))
    return js


def C12(tier):
    docs = pick("# ", "#\n", "##")
    js = ref("head", 12, tier, docs)
    js += [exhaustive("slug", 212, k, ASCII, "# ", "\n\n# a\n\n# a\n") for k in (1, 2, 3)]
    T = Set("aA1 -_.*s\n#")
    t = T if tier == "thorough" else Set("a1 -*s\n")
    js += grid("slug2", 212, ["# @@\n\n# @@\n", "# @@@@\n", "# a@@b@\n\n# a-b\n"], **{"@": T})
    js += grid("slug3", 212, ["# a@b@c\nd@@e\n", "# @\n\n{#@}\n# @\n\n# @\n", "> # @\n\n# @\n\n- # @\n\n# @@\n"], **{"@": t})
    H = Set("# ")
    js += grid("level", 212, ["#@@@ a\n\n#@@@ b\n\n#@@@ c\n", "#@ a\n\n#@@ b\n\n#@@@ c\n\n#@@ d\n\n#@ e\n", "#@@ a\n#@@ b\n#@@ c\n"], **{"@": H})
    js += [Job("slug.utf%d" % k, 212, ["# a", u, "b\n\n[", "a", V(0), V(1)] + ([V(2)] if k else []) + ["b][]\n"]) for k, u in ((0, UTF2), (1, UTF3))]
    js.append(Job("many", 212, ["".join("# a\n\n" for _ in range(12)), "# a", Set("-a1 "), DIGIT, "\n\n# a\n"]))
    js.append(Job("many2", 212, ["".join("%s s%d\n\n" % ("#" * (i % 6 + 1), i) for i in range(12)), "#", H, H, H, H, H, " z\n"]))
    return js


def C13(tier):
    docs = pick("][", "]: ", "[]")
    js = ref("link", 13, tier, docs)
    T = Set("aA *-\\\"\n]")
    js += grid("label", 213, ["[@@][]\n\n[@@]: u\n", "[x][@@]\n\n[@@]: u\n", "[@@@][]\n\n# @@\n", "![@@][]\n\n[@]: u\n\n[@]: v\n", "# @@\n\n[x][@@]\n\n[@]: u\n"], **{"@": T})
    js += [exhaustive("lab", 213, k, ASCII, "[", "][]\n\n[b]: u\n\n# a b\n") for k in (1, 2, 3)]
    js += [exhaustive("def", 213, k, ASCII, "[b]:", "\n\n[b][]\n") for k in (1, 2, 3)]
    U = Set("ab \n{}[:>\t")
    js += [exhaustive("url%d_" % i, 213, 5 if tier == "thorough" else 4, U, p, "c\n\n[x][b] ![b][]\n") for i, p in enumerate(["[b]: ", "[b]:\n ", "{.k}\n[b]: u", "> [b]: u\n> ", "- [b]: u\n ", "  [b]: u\n "])]
    js += grid("prec", 213, ["{@=1 .k}\n[b]: u\n\n[x][b]{@=2 .k@}\n", "[@]: u\n\n# @\n\n[@][] [x][@]\n\n[@]: v\n"], **{"@": Set("abc")})
    return js


def C14(tier):
    docs = pick("[^")
    js = around("note", 140, docs, ANY)
    js += around("noted", 140, docs, ANY, [1], ins=False)
    L = Set("abc")
    G = ["[^@]x[^@] y[^@]\n\n[^@]: p\n\n[^@]: q\n", "[^@] [^@]\n\n[^@]: p[^@]\n\n[^@]: q[^@]\n", "[^@]: p[^@]\n\n[^@]: q[^@]\n\n> x[^@]\n\n[^@]: r\n",
         "- [^@]\n\n  [^@]: p\n\n[^@]: - q[^@]\n\n  [^@]: r\n", "![[^@]](u)[^@] [l[^@]](u)\n\n# h[^@]\n\n[^@]: p\n",
         "[^@]\n\n[^a]: p[^b]\n\n[^b]: q[^c]\n\n[^c]: r[^@]\n\n[^@]: s\n"]
    js += grid("order", 140, G, [0], **{"@": L})
    js += grid("order1", 140, G[:2], [1], **{"@": L})
    js += [exhaustive("lab", 140, k, ASCII, "x[^", "] y[^a b]\n\n[^a b]: n\n") for k in (1, 2, 3)]
    js += [exhaustive("def", 140, k, ANY, "x[^a] y\n\n[^a]:", "\n\n  z\n\nw[^b]\n") for k in (1, 2, 3)]
    js += [exhaustive("end", 140, 3, ANY, "x[^a]\n\n[^a]: ", "n\n")]
    js += scale("note", 140, [0]) + huge("note", 140, [0])
    js += pieces("note.short", 140, ["[^a]: b\n", "  c[^d]\n", "\n", "[^d]: e[^a]\n", "x[^a]\n", "> [^d]: f\n"], 6 + (tier == "thorough"), post="y[^d]\n", choice=[0])
    js += pieces("note.lines", 140, LINES, 4 + (tier == "thorough"), ("[^", "> q", "- l", "  c", "# h\n", "    e", ":::\n", "|a", "{.x"), post="y[^n]z\n", choice=[0])
    js += pieces("note.words", 140, WORDS, 3 + (tier == "thorough"), ("[", "]", "*", "`", "\n", "!", "{.x"), post="[^a]\n\n[^a]: b[^n]\n\n[^n]: c\n", choice=[0])
    for k in (260,):
        js.append(Job("count", 140, ["".join("[^%d]" % i for i in range(k)), "[^", DIGIT, "]\n\n", "".join("[^%d]: x\n\n" % i for i in range(1, k, 2)), "[^4", DIGIT, "]: y\n"]))
    many = "".join("[^%s]" % c for c in "abcdefghij")
    js.append(Job("many", 140, [many, "[^", Set("abjkl"), "] [^", Set("ajk"), "]\n\n[^", Set("abk"), "]: p\n\n[^j]: q[^", Set("kz"), "]\n"]))
    if tier == "thorough":
        js += windows("note.win", 140, docs, ANY, 2)
        js += grid("order3", 140, ["[^@][^@][^@]\n\n[^@]: p[^@][^@]\n\n[^@]: q[^@]\n\n[^@]: r\n"], [0], **{"@": L})
    return js


def C15(tier):
    docs = pick("- ", "+ ", "* ", ". ", ") ", ": ")
    js = around("mark.doc", 215, docs, ANY, ins=False) + scale("mark", 215) + huge("mark", 215) + related("mark", 15, tier) if tier == "quick" else ref("mark", 15, tier, docs)
    js += [exhaustive("mark", 215, k, ASCII, "", " a\n") for k in (1, 2, 3)]
    M = Set("0129aivxlcmzIVXM.)( ")
    js += [exhaustive("mark4_", 215, 4, M, "", "a\n"), exhaustive("markp", 215, 4, M, "(", " a\n")]
    js += [exhaustive("box", 215, 3, ASCII, b, " a\n") for b in ("- [", "* ", "+ [x")]
    N = ALNUM
    js += grid("two", 215, ["@. a\n@. b\n", "(@) a\n(@) b\n", "@) a\n\n@) b\n"], **{"@": N})
    R = Set("ivxlcdm")
    js += grid("roman", 215, ["@@@@. a\n", "@@) a\n@@) b\n", "(@) a\n(@) b\n(@) c\n"], **{"@": R})
    js += grid("romanU", 215, ["@@@. a\n@@. b\n"], **{"@": Set("IVXLCDMA")})
    js += grid("digits", 215, ["1" * 17 + "@@@@. a\n"], **{"@": Set("09.")})
    js += grid("long", 215, ["%s@@@. a\n" % ("m" * 11), "%s@@@) a\n" % ("I" * 11)], **{"@": Set("mIi.)")})
    js.append(Job("bullet", 250, [ASCII], [Set(bytes(range(256)), "any")]))
    js += [Job("bullet.utf%d" % k, 250, [u]) for k, u in enumerate((UTF2, UTF3, [Set(bytes([0xF0, 0xF1, 0xF4])), Set(bytes([0x80, 0x8f, 0x90, 0x9f])), CONT, CONT]))]
    K = Set("-+*:1ai(.) [x]")
    js += grid("kinds", 215, ["- a\n@@@b\n", "1. a\n@@@ b\n", "- [ ] a\n@ @@@ b\n", "i. a\n@@ b\n@@ c\n"], **{"@": K})
    js += grid("three", 215, ["@. a\n@. b\n@. c\n@. d\n"], **{"@": Set("hijkuvwx")})
    return js


def C16(tier):
    docs = pick("- ", "+ ", "* ", "1. ", ") ", ": ")
    js = ref("list", 16, tier, docs)
    S, M = SP, Set("-+>a1#")
    G = ["- a\n$$@ b\n$$@ c\n", "- a\n\n$$@ b\n\n$$@ c\n", "- a\n$- b\n$\n$$- c\n$\n- d\n", "> - a\n>$$- b\n>$$$c\n", "- a\n\n  - b\n$$$$- c\n$$$d\n",
         "- - a\n$$- b\n$$$$- c\n$- d\n", "1. a\n$$$b\n\n$$$@ c\n2. d\n", "- > a\n$$>$b\n\n- c\n", "- ```\n  a\n$$$b\n$```\n- c\n", ": a\n$\n$$b\n\n$$@ c\n: d\n",
         "- a\n$$$\n$$b\n- c\n$\n$$$d\n", "- a\n  :::\n$$b\n\n$$c\n  :::\n- d\n", "+ a\n$$$$- b\n$$$$$$$- c\n$$$- d\n"]
    js += grid("tree", 216, G, **{"@": M, "$": S})
    X = Set("a- \n>")
    js += [exhaustive("lines%d_" % i, 216, 7 if tier == "thorough" else 6, X, p, q) for i, (p, q) in enumerate([("- ", "b\n"), ("- a\n", "- b\n"), ("- a\n\n", "b\n\n- c\n"), ("- a\n  - b\n", "c\n- d\n"), ("- a\n  - b\n\n", "c\n")])]
    return js


def C17(tier):
    docs = pick("`", "~~~", "~~~ =html")
    js = ref("verb", 17, tier, docs)
    js += [exhaustive("in%d_" % i, 217, 3, ASCII, p, q) for i, (p, q) in enumerate([("`", "` b"), ("``", "`` b"), ("$`", "` b"), ("$$`", "` b"), ("`a", "`{=html} b"), ("", "`a` b"), ("`a`", " b"), ("`a`{=", "} b")])]
    B = Set("a` \n\\*{}$")
    js += [exhaustive("tick%d_" % i, 217, 6 if tier == "thorough" else 5, B, p, q) for i, (p, q) in enumerate([("`", "`"), ("``", "`` b"), ("> `", "\n> `` c"), ("", "``a`")])]
    C = [("```\n", "\n```\nb\n"), ("~~~ x\n", "\n~~~\nb\n"), ("``` =html\n", "\n```\n*b*\n"), ("  ```\n", "a\n  ```\nb\n"), ("> ```\n> ", "\n> ```\nb\n"), ("- ```\n  ", "\n  ```\nb\n"), ("[^a]: ```\n ", "a\n\n  b\n"), (":::\n```\n", "\n:::\n```\n:::\n"), ("```", "\na\n```\nb\n"), ("a\n```\n", "c\n```\nb\n")]
    js += [exhaustive("code%d_" % i, 217, 3, ANY, p, q) for i, (p, q) in enumerate(C)]
    F = Set("`~ \na>:")
    js += [exhaustive("fence%d_" % i, 217, 6 if tier == "thorough" else 5, F, p, q) for i, (p, q) in enumerate([("```\na", "b\n"), ("~~~~\na\n", "\nb\n"), (" ````\n", "```\nb\n"), ("> ```\n", "```\nb\n")])]
    return js


def C18(tier):
    docs = pick("|")
    js = ref("table", 18, tier, docs)
    C = Set("a|\\` -:\n")
    n = 6 if tier == "thorough" else 5
    js += [exhaustive("row%d_" % i, 218, n, C, p, q) for i, (p, q) in enumerate([("|", "|\n"), ("|a|\n|", "|\n|b|\n"), ("|a|b|\n|", "-|\n|c|d|\n"), ("> |a|\n> |", "|\n"), ("", "|a|\n")])]
    js += [exhaustive("cell", 218, 3, ASCII, "|a", "|b|\n"), exhaustive("edge", 218, 3, ASCII, "|a|", "\n|b|\n"), exhaustive("cap", 218, 3, ANY, "|a|\n", " b\n|c|\n")]
    js += [exhaustive("cap%d_" % i, 218, n, Set("^ \na|b"), p, "c\n") for i, p in enumerate(["|a|\n", "|a|\n\n^ d\n", "> |a|\n> ^ "])]
    js += grid("align", 218, ["|a|b|c|\n|@@@|@@|@|\n|d|e|f|g|\n", "|@-@|\n|a|b|\n|@-@|@-@|\n|c|d|\n|e|\n"], **{"@": Set("-: ")})
    js.append(Job("wide", 218, ["|" + "a|" * 300 + "\n|" + "-|" * 254, Set(":-"), "-", Set(":-"), "|", Set(":-"), "-", Set(":-"), "|-|\n|" + "b|" * 300 + "\n"]))
    js.append(Job("tall", 218, ["|a|\n" * 40, "|", Set(":-"), "-", Set(":-"), "|\n", "|b|\n" * 40]))
    return js


def C19(tier):
    docs = pick("--", "...", "\\", "'", "\"", ":a", "  \n")
    js = ref("punct", 19, tier, docs)
    js += [exhaustive("esc", 219, 3, ASCII, "a\\", "b"), exhaustive("esc2_", 219, 2, ASCII, "*a\\", "*\n"), exhaustive("sym", 219, 3, ASCII, "a:", ":b")]
    n = 6 if tier == "thorough" else 5
    Q = [("", "'\"a {}", n), ("a ", "'\"a .-}{", n - 1), ("", "-}a{. ", n), ("a", "\\ \t\na", n + 1), ("", ":a+ -:1", n), ("*", "'\"*a ", n), ("(", "'\"()- ", n)]
    js += [exhaustive("q%d_" % i, 219, k, Set(a), p, q) for i, (p, a, k) in enumerate(Q) for q in ("", "b")]
    js += grid("runs", 219, ["-" * 20 + "@@@@@ a", "a " + "-" * 31 + "@@@ a", "." * 10 + "@@@@ a", "a" + "." * 30 + "@@@."], **{"@": Set("-.a}")})
    js += [exhaustive("brk%d_" % i, 219, 4, Set(" \t\n\\a\r"), p, q) for i, (p, q) in enumerate([("a", "b\n"), ("> a", "\n> b\n"), ("- a", "\n  b\n"), ("# a", "b\n"), ("|a", "|\n")])]
    js += [Job("q.utf%d_%d" % (k, i), 219, [p, u, q]) for k, u in enumerate((UTF2, UTF3, UTF4)) for i, (p, q) in enumerate([("'", "'"), ("a'", " b'"), ("\\", "a"), (":", ":"), ("\"", "\"--"), ("...", "--")])]
    return js


def C20(tier):
    docs = [d for d in INLINE] + pick("*", "_", "{=", "{+", "{-", "^", "~")
    js = ref("delim", 20, tier, docs)
    n = 7 if tier == "thorough" else 6
    js += [exhaustive("delim", 220, n, Set("*_a {")), exhaustive("delimb", 220, n, Set("*{}_a"))]
    js += [exhaustive("pair%s" % i, 220, n - 1, Set(s)) for i, s in enumerate(["{}=a *", "{}+-a ", "~^a {}", "{}'\"a_", "*_[]a ", "*`a \\_", "*_a\n{}"])]
    js += [exhaustive("mid%d_" % i, 220, 3, ANY, p, q) for i, (p, q) in enumerate([("*a", "b*"), ("_a", "*b_ c*"), ("{_a", "_}b_}"), ("[a *", "](b)*"), ("*a `", "* b` c*"), ("> *a\n> ", "b* c")])]
    js += [exhaustive("any", 220, 3, ASCII)]
    return js


def C21(tier):
    docs = pick("](", "][", "]{", "![", "<")
    js = ref("brack", 21, tier, docs)
    n = 6 if tier == "thorough" else 5
    js += [exhaustive("any", 221, n - 1, Set("[]()!a{}.<>:"))]
    T = [("[a](", "b) c)", "()[]a\\\n <"), ("[", "](u)", "[]!a\\*`("), ("![", "](u) b", "[]!a\n*_"), ("[a][", "b]] c", "[]a\n\\*("), ("[a]", ".b} c", "[({]a ."), ("", "[a](b)", "!\\[a *`"), ("[a](b", ")", "\n >a\\")]
    js += [exhaustive("br%d_" % i, 221, n - 1, Set(a), p, q) for i, (p, q, a) in enumerate(T)]
    js += [exhaustive("auto%d_" % i, 221, 3, ASCII, p, q) for i, (p, q) in enumerate([("<", "> b"), ("<a:", "> b>"), ("<", "@b> c"), ("a<b", ":c>")])]
    js += [exhaustive("in%d_" % i, 221, 3, ANY, p, q) for i, (p, q) in enumerate([("[a](", ") b)"), ("![a", "](b) c"), ("[a][", "] b]"), ("[a]", "(b) c"), ("> [a](b\n> ", "c)")])]
    js += [exhaustive("nest", 221, n, Set("[](*a)"), "[", "](u)")]
    return js


def C22(tier):
    js = general("block", 222, tier) + short("block", 22, tier)
    for i, p in enumerate(PRE):
        js.append(exhaustive("after%d_" % i, 222, 3, ANY, p, " b\n\nc\n"))
    L = Set("#>-*+:`|~[]^= 1.ax\n{}_")
    js += [exhaustive("line%d_" % i, 222, 4, L, p, q) for i, (p, q) in enumerate([("", "\n"), ("", " a\nb\n"), ("a\n", " b\n")])]
    G = [("```\na\n", "b\n", "`~ \n:"), (":::\na\n", "b\n", ": \n`a"), ("::::\n", "a\n:::\nb\n::::\nc\n", ": \nx"), ("***", "\na\n", "*- \na"), ("- - ", "\na\n", "*- \na"), ("[a", "b\n\nc\n", "]: ^\n"), ("> a\n", "b\n", "># \n-"), ("# a\n", "b\n", "# \n>")]
    js += [exhaustive("shape%d_" % i, 222, 6 if tier == "thorough" else 5, Set(a), p, q) for i, (p, q, a) in enumerate(G)]
    return js


def C23(tier):
    docs = [d for d in BLOCK + MORE if d.strip("\n") == d[:-1]] + INLINE[::3]
    js = []
    kinds = [(k, l) for k in range(12) for l in ((0, 1) if 3 <= k <= 9 else (0,))]
    for i, d in enumerate(docs):
        k = kinds[i % len(kinds)]
        js += subst1("wrap%d.k%d_%d" % (i, k[0], k[1]), 230, d, ANY, list(k))
        for k in kinds if tier == "thorough" else kinds[i % 3::3]:
            js += insert1("wrap%d.i%d_%d" % (i, k[0], k[1]), 230, d, ANY, list(k), step=1 if tier == "thorough" else 4, start=i % 4)
        js += insert1("alone%d" % i, 231, d, ANY, step=2)
    for k in kinds:
        js.append(exhaustive("any.k%d_%d_" % k, 230, 3 if tier == "thorough" else 2, ANY, "a\n\n", "b\nc\n", list(k)))
        js.append(exhaustive("syn.k%d_%d_" % k, 230, 4 if tier == "thorough" else 3, Set("a->:`#|\n {."), "", " b\n", list(k)))
    for i, k in enumerate(kinds):
        js += scale("wrap.k%d_%d" % k, 230, list(k))[i % 3::3] + huge("wrap.k%d_%d" % k, 230, list(k))[i % 4::4]
    for i, k in enumerate(kinds):
        js += pieces("pieces.k%d_%d" % k, 230, LINES, 2 + (tier == "thorough"), post="z\n", choice=list(k))
        js += pieces("spans.k%d_%d" % k, 230, WORDS, 2, post=" z\n", choice=list(k))
    js += [exhaustive("para", 231, 5, Set("a*_`[]{\n"), "a\n\n", "b"), exhaustive("para2_", 231, 4, Set("a*_`[]('\n"), "", "a\n\n*b_]`")]
    js += [exhaustive("last", 231, 3, ANY, p, "\n") for p in ("", "a\n\n", "- a\n", "> ", "|a|\n")]
    return js


def C25(tier):
    js = general("maps", 250, tier)
    for n, d in enumerate(pick("[^", "][", "]: ", "# ")):
        js += subst1("keys%d" % n, 251, d, Set("ab#\n[] "), step=1 if tier == "thorough" else 3)
    L = Set("abc")
    many = "".join("[^%s]" % c for c in "hgfed")
    notes = "".join("[^%s]: %s\n\n" % (c, c) for c in "dfheg")
    js += grid("keys.grid", 251, ["[^@] [^@] [^@]\n\n[^@]: p\n\n[^@]: q\n\n[^@]: r\n", "[@][] [@][]\n\n[@]: u\n\n[@]: v\n\n# @\n\n# @\n",
                                   many + "[^@]\n\n" + notes + "[^@]: z\n", "# b\n\n# @\n\n# c\n\n# @\n\n[@][] [b][] [c]: u\n"], **{"@": L})
    js += grid("maps.grid", 250, ["[^@] [^@] [^@]\n\n[^@]: p\n\n[^@]: q\n\n[^@]: r\n", "[@][] [@][]\n\n[@]: u\n\n[@]: v\n\n# @\n\n# @\n",
                                   many + "[^@]\n\n" + notes + "[^@]: z\n"], **{"@": L})
    # several near matches of one label
    N = ["[x][@@]\n\n[@@]: u\n\n[@@]: v\n", "x[^@@]\n\n[^@@]: u\n\n[^@@]: v\n", "[x][@@]\n\n# @@\n\n# @@\n", "x[^@@] y[^@@]\n\n[^@@]: u\n"]
    A = ["aA", "a b", "a-", "a*"]
    js += [Job("near%d_%d" % (i, k), o, hole(t, **{"@": Set(a)})) for i, t in enumerate(N) for k, a in enumerate(A) for o in (250, 251)]
    return js


# "@@" differs in each copy
COUNTED = [
    "[a][l@@] b\n\n[l@@]: u\n\n[l@@]", "a[^n@@] b\n\n[^n@@]: c", "[^n@@]: c[^m@@]\n\n[^m@@]: d", "# h@@\n\n[h@@][]", "{#h@@}\n# h\n\n[](#h@@)",
    "# h@@\n\n## h\n", "# h", "## a\n\n[a][]", "# a@@\n# a@@\n\n[a@@][]", "x[^a@@]\n\n# b", "@@. a\n\n- b@@", "{.c@@ a=@@}\n[a]{b@@=c} :s@@:", "``` l@@\n@@\n```\n\n$`@@`",
    "[^u@@] [r@@][] <a@@@b>", "| @@ | b |\n|--|--|\n^ c@@", ": t@@\n\n  d", "> # h@@\n> [h@@][]", "::: d@@\n# h@@\n:::", "![i][l@@]\n\n{a=@@}\n[l@@]: u",
]


def C26(tier):
    # whole documents repeated: linear; any fragment repeated: at most quadratic
    t = tier == "thorough"
    js = []
    for n, d in enumerate(DOCS + MORE):
        js += subst1("doc%d" % n, 260, d.rstrip("\n"), ANY, step=2 if t else 7, start=n % 7)
        js += insert1("doc%d" % n, 260, d.rstrip("\n"), ANY, step=2 if t else 12, start=n % 12)
    for n, d in enumerate(COUNTED):
        js += subst1("num%d" % n, 262, d, ANY, step=1 if t else 5, start=n % 5)
        js += insert1("num%d" % n, 262, d, ANY, step=2 if t else 7, start=n % 7)
    js += [exhaustive("block", 260, k, ASCII) for k in (1, 2)]
    js += [exhaustive("lines%d_" % i, 260, 3 if t or not i else 2, SYN, p) for i, p in enumerate(["", "a\n", "> ", "- ", "[a]: ", "{"])]
    js += [exhaustive("unit", 261, k, ASCII) for k in (1, 2)]
    js.append(exhaustive("syn", 261, 3, Set("a *_{}[](`<\n>-:|#.!^\\\"") if t else Set("a *{[]}(`<\n>-:|#")))
    for n, d in enumerate(DOCS + MORE):
        js += subst1("frag%d" % n, 261, d.rstrip("\n"), ANY, step=3 if t else 12, start=n % 12)
    return js


# input, output, minified, start indent, indent string, fault, position, chunk, form of arguments
def tool(inf=0, out=0, mini=0, level=0, string=0, fault=0, k=0, chunk=0, form=0):
    return [inf, out, mini, level, string, fault, k, chunk, form]


def C27(tier):
    t = tier == "thorough"
    B = Set(bytes(range(2)))
    N = lambda n: Set(bytes(range(n)))
    AB = Set("a\n")
    RAW = Set(bytes(range(128, 256)), "raw")
    docs = ["a *b*\n\n> c", "- a\n  - b\n\n\u00e9 [^1]\n\n[^1]: \u20ac", ""]
    js = []
    # every combination and form of options
    for inf in (0, 1):
        js.append(Job("cli.options%d" % inf, 270, [docs[0]], tool(inf, B, B, N(12), N(5), form=N(8))))
        js += [Job("cli.number%d.%d" % (inf, k), 270, [docs[0]], tool(inf, B) + [ASCII if t or k == 1 else Set("059+-.a=\n")] * k) for k in (1, 2)]
        js.append(Job("cli.usage%d" % inf, 270, [docs[0]], tool(inf, B, B) + [0, 0, Set(bytes(range(1, 5)))]))
    # bytes that are not UTF-8
    for n, d in enumerate(docs):
        d = d.encode()
        for i in range(0, len(d) + 1, 1 if t else 4):
            for inf in (0, 1):
                js.append(Job("cli.raw%d.%d.%d" % (n, i, inf), 270, [d[:i], RAW, d[i:]], tool(inf, B, chunk=N(2))))
                if t:
                    js.append(Job("cli.raw2%d.%d.%d" % (n, i, inf), 270, [d[:i], RAW, RAW, d[i:]], tool(inf, B)))
    js += [Job("cli.utf%d" % k, 270, ["a", u, "b"], tool(B, B, chunk=N(3))) for k, u in ((2, UTF2), (3, UTF3), (4, UTF4))]
    # faults at every position, short reads and writes
    for n, d in enumerate(docs):
        for f in range(1, 7):
            pos = N(80) if f in (2, 4) else 0
            js.append(Job("cli.fault%d.%d" % (n, f), 270, [d], tool(B, B, B, fault=f, k=pos, chunk=Set(bytes([0, 1, 7])), form=4)))
    # output larger than the buffers
    for size in (1023, 8184, 8191, 8200, 16390) if t else (8184, 8191, 8200):
        for f in (0, 4):
            js.append(Job("cli.large%d.%d" % (size, f), 270, [AB, "a" * (size - 9)], tool(B, B, fault=f, k=Set(bytes([9, 255])), chunk=0)))
    # line ends and sizes, as they are
    js.append(Job("cli.lines", 270, ["```\na", Set("\r\n\0a\x0b"), Set("\r\na"), "b\n```", Set("\r\na")], tool(B, B)))
    js.append(Job("cli.huge", 270, [AB, "a" * 66000], tool(B, 0)))
    js += [exhaustive("cli.any", 270, k, ASCII, choice=tool(B, B, B)) for k in (0, 1, 2)]
    for n, d in enumerate(DOCS):
        js += subst1("cli.doc%d" % n, 270, d, ANY, tool(n & 1, n >> 1 & 1, n >> 2 & 1, n % 12, n % 5), step=3 if t else 16, start=n % 16)
    return js


def C28(tier):
    t = tier == "thorough"
    N = lambda n: Set(bytes(range(n)))
    OP, Q = N(72), Set("<>&\"a'\n") if not t else ASCII
    js = []
    for k in range(16):
        js.append(Job("built.text%d" % k, 280, [Q], [k, N(4), 0, OP, OP]))
        if t or k in (1, 2, 4, 5, 8, 9, 13):
            js.append(Job("built.ops%d" % k, 280, ["a"], [k, 2, 0, OP, OP, OP] + ([OP] if t and k in (1, 4, 7) else [])))
        js.append(Job("built.part%d" % k, 280, ["html" if k % 2 else "<"], [k, 3, 1, OP, OP]))
    js += [Job("built.text%d_%d" % (k, n), 280, [Q] * n, [k, 1, 0, OP]) for k in (0, 1, 2) for n in (2, 3)]
    js += [Job("built.utf%d" % n, 280, ["<", u, "a"], [1, 1, 0, OP]) for n, u in ((2, UTF2), (3, UTF3), (4, UTF4))]
    # a footnote and what follows it
    F = Set(bytes([0, 1, 2, 3, 4, 11, 17, 32, 57, 68, 70]))
    js += [Job("built.note%d" % k, 280, ["b"], [k, 0, 0] + [F] * (6 if t else 5)) for k in (0, 5, 6, 13)]
    for n, d in enumerate(DOCS):
        js += subst1("edit%d" % n, 281, d, ANY, [N(10), 0], step=2 if t else 9, start=n % 9)
        js.append(Job("edit.any%d" % n, 281, [d], [N(3), N(40)]))
    js += [Job("edit.more%d" % n, 281, [d], [N(10), N(12)]) for n, d in enumerate(MORE)]
    js += pieces("edit.lines", 281, LINES, 2 + t, post="z\n", choice=[N(10), 1]) + pieces("edit.words", 281, WORDS, 2 + t, post=" z\n", choice=[N(10), 2])
    js.append(Job("edit.rich", 281, [RICH], [N(10), N(128)]))
    js += [exhaustive("edit.two", 281, 2, ASCII, choice=[9])] + [exhaustive("edit.four", 281, 4, Set("*_[]()!`a<"), choice=[k, 0]) for k in (3, 4, 7)]
    return js


# properties decided on another harness than the common one
CRATE = {"C25": "maps", "C27": "cli"}

PROPS = {k: v for k, v in globals().items() if k[0] == "C" and k[1:].isdigit()}


def jobs_for(prop, tier):
    return PROPS[prop](tier)


def required_marks(prop):
    return 0


BASE = ("every input of the listed job templates, in which the stated bytes are symbolic: documents with any one byte replaced or inserted "
        "(thorough: at more positions, and any two adjacent bytes), every sequence of 3 or 4 (thorough 4 or 5) pieces of the listed lines and inline markup, multi-byte characters at sampled positions; loops unrolled completely; ")
BOUNDS = {
    "C01": "all strings of up to 3 ASCII bytes; attribute strings of up to 3 bytes; sizes at counter limits (65535, 2^64, nesting 80)",
    "C08": "failing position below 128 (256 for the long document), three layouts",
    "C09": "attribute strings of up to 3 ASCII bytes, 4 bytes of the attribute alphabet after nine prefixes",
    "C10": "2 (thorough 3) symbolic elements of any kind, key and value of an alphabet",
    "C14": "up to 9 references and definitions with symbolic labels, three layouts",
    "C15": "markers of up to 3 ASCII bytes and 4 bytes of the marker alphabet; numerals at the limits",
    "C17": "3 arbitrary bytes in every kind of verbatim content, fences of up to 5 bytes",
    "C18": "rows of up to 5 symbolic bytes, 300 columns",
    "C20": "up to 6 bytes over the delimiter alphabets",
    "C21": "up to 5 bytes over the bracket alphabets in seven contexts",
    "C22": "3 arbitrary bytes after thirteen kinds of block",
    "C23": "twelve ways of wrapping",
    "C24": "clone positions below 64 (256 for the long document)",
    "C25": "nine keys of the hash maps; the hash is a constant that depends on the keys",
    "C26": "8 to 32 copies of a document or fragment, 16 to 128 copies with different numbers; growth beyond these sizes is confirmed natively for candidates only",
    "C28": "3 symbolic events of 71 kinds after 16 beginnings, symbolic texts of up to 3 bytes; ten ways of changing the events of a document",
    "C27": "one or two raw bytes; read, write and open faults at byte positions below 80 (255 for large outputs); transfers of 1, 7 or any number of bytes; "
           "outputs up to 66000 bytes; system calls are modelled (cli/src/sys.rs)",
}


def assumptions(prop):
    r = list(ASSUMPTIONS)
    if prop in ("C25", "C27"):
        r = [a for a in r if "deterministic feature" not in a] + ["hash maps are right for every hash function; their hasher is modelled by a constant per map"]
    if prop == "C27":
        r.append("the system calls behave as modelled in cli/src/sys.rs; every path is also run on the real tool, faults injected by a preloaded library")
    return r


def bounds_text(prop, tier):
    return BASE + BOUNDS.get(prop, "all strings of up to 3 ASCII bytes" if prop in ("C02", "C03", "C04", "C05", "C24") else "see per_job")
