"""Concrete documents that templates are built from: each covers some of the syntax."""

INLINE = [
    "*a* _b_ ^c^ ~d~\n",
    "{*a*} {_b_} {^c^}{~d~}\n",
    "{=a=} {+b+} {-c-}\n",
    "*a _b* c_ {_d {*e_} f*}\n",
    "`a` ``b`c`` `d\n",
    "$`a` $$`b` $c `x`{=html}\n",
    "[a](b) ![c](d) [e]{.f}\n",
    "[a][b] [c][] ![d][e]\n\n[b]: u\n\n# c\n",
    "[a\nb](c\nd) [e][f\ng]\n",
    "<http://a> <b@c> <d>\n",
    "'a' \"b\" it's '90 {'c'}\n",
    "a -- b --- c ---- d... e\n",
    "a\\*b\\ c\\\nd\\\\e \\f\n",
    ":a: :b+1: :c d:\n",
    "a[^1] b[^x]\n\n[^1]: c[^x]\n\n  d\n",
    "a{.b} *c*{#d e=f} {.g}\n",
    "a{k=\"v w\" %c% .x}\n",
    "a{.b\n.c} d\n",
    "[a *b](c) d* [e_](f)_\n",
    "![a [b](c) *d*](e){.f}\n",
    "<a&b>\"c\" [d](\"e<&)\n",
]

BLOCK = [
    "# a\n\nb\n\n## c\nd\n\n# e\n",
    "{#i .c}\n# a\n\n{k=v}\nb\n",
    "> a\nb\n> c\n>\n> > d\n",
    "- a\n- b\n\n- c\n",
    "- a\n\n  b\n  - c\n\n  - d\n- e\n",
    "1. a\n2. b\n\n   c\n",
    "(a) b\n(b) c\n\ni) d\nii) e\n",
    "- [ ] a\n- [x] b\n",
    ": a\n\n  b\n\n: c\n",
    "|a|b|\n|-|:-:|\n|c|d|\n\n^ e\n",
    "|a|\n|b\n\n|`c|d`|e\\|f|\n",
    "```x\na\n b\n```\nc\n",
    "~~~ =html\n<a>\n~~~\nb\n",
    "::: a\nb\n\n:::: c\nd\n::::\n:::\ne\n",
    "[a]: b\n c\n\n[x][a]\n",
    "[^a]: b\n\n  c\n\nd[^a]\n",
    "***\na\n\n- - -\n",
    "{.a}\n\n{.b}\n{.c}\n> d\n",
    "- > a\n  b\n  # c\n- ```\n  d\n",
    "* a\n+ b\n1) c\n1. d\n",
    "a\n\n\n- b\n\n\nc\n",
    "> - a\n>   b\n>\n> c\n",
    "#a\n# b\n #  c\n###### d\n",
]

# further combinations: features meeting each other, and shapes the first documents lack
MORE = [
    # attributes
    "{.a #b}\n{k=1 .c k=2}\n***  \n{.d}\n",
    "{.a}\n\n{#b}\n# c\n\n{.d}\n- e\n",
    "{.x}\n[a]: u\n\n{.y}\n[b][a]{.z}\n\n[a]{.w}\n",
    "{.a}\n|b|\n\n{.c}\n: d\n\n{.e}\n```\nf\n```\n",
    "> {.a}\n> b\n>\n> {.c}\n\nd\n",
    "- {.a}\n  b\n- {#c}\n  # d\n",
    "a *b*{.c #d}{e=f}\"g\"{.h} `i`{.j}\n",
    "![a]{.b} ![c](d){.e} <f:g>{.h} $`i`{.j}\n",
    "[a{.b}]{.c} *d{.e}*{.f}{#g}\n",
    "a{.b\n> c} d{.e}\n> f{.g\n> .h}\n",
    "a{} *b*{} {%c%}d{%e\nf%}\n",
    "a b{k=\"c\\\"d\n e\" l=m}f{.g}{.h} \"\n",
    "{k=\"a b\" .c class=d}\nword{.x #y}.\n",
    # sections and headings
    "# a\n\n## b\n\n### c\n\n{.d}\n# e\n\n## f\n",
    "# a b\n\n# a  b!\n\n# *a* b\n\n#\n\n# .\n\n[a b][] [c](#)\n",
    "## a\n\n# b\n\n{id=c}\n### d\n\n[d][] [b][]\n",
    "> # a\n\n- # a\n\n# a\nb\n# c\n\n[a][]\n",
    "# a-b_c 1 \\* `d` -- e\nf\n\n# s\n\n#\n",
    "# a\n\n# a-1\n\n# a\n\n{#a}\n# a\n",
    "# a\n\n# a\n\n# a\n\n[a][] [a]: b\n",
    # references, links, images
    "[a *b* c][] [a\nb][] [x]\n\n[a b]: u\n\n[a b c]: v\n",
    "[a][b]\n\n[b]: c\n\n[b]: d\n e\n f\n\n# b\n",
    "[a](b(c)d) [e](f\\)g) [h](i *j* k)\n",
    "[[a](b)](c) ![[d][e]](f) [g [h] i](j)\n",
    "[a](b\nc\nd) ![e\nf](g\nh) [i][j\nk]\n\n[j k]: l\n",
    "> [a](b\n> c) ![d *e*\n> f](g)\n",
    "<a:b c> <d@e:f> <<g:h> <i\n:j> <k>\n",
    "![\"a\" 'b' -- c\\\nd... :e: [^f] `g` $`h`\\ i](j \"k\" <l&)\n",
    "[a]{.b}(c) [d](e)[f] [g]:h [i] (j)\n",
    "\\[a](b) [c\\](d) [e]\\(f) !\\[g](h) \\![i](j)\n",
    # footnotes
    "a[^b] c[^d] e[^b]\n\n[^d]: f\n\n[^b]: g\n\n  > h\n",
    "[^a]: b[^c]\n\n[^c]: d[^a][^e]\n\nf[^a]\n\n[^x]: y\n",
    "a[^b]\n\n[^b]:\n\n  - c\n  - d\n\n[^b]: e\n",
    "a[^b]\n\n[^b]: - c\n\n  # d\n\n  |e|\n",
    "> a[^b]\n>\n> [^b]: c\n> d\n\n- [^e]\n",
    "[^ a] [^a b] [^] [^a\nb] [^c]x\n\n[^a b]: d\n",
    "# a[^b]\n\n|c[^d]|\n^ e[^f]\n\n[^b]: ```\n  g\n",
    # lists
    "- a\n\n- b\n- c\n\n\n+ d\n+ e\n",
    "- a\n  - b\n    - c\n\n  - d\n- e\n\n  f\n",
    "- a\n\n  - b\n\n  c\n- d\n",
    "1. a\n1) b\n(1) c\na. d\nA. e\ni. f\nI. g\n",
    "i. a\nii. b\n\nh. c\ni. d\nj. e\n",
    "c. a\nd. b\nv) c\nw) d\n(X) e\n(XI) f\n",
    "12. a\n13. b\n07. c\n0) d\nz. e\nxiv. f\n",
    "- [ ] a\n- [X] b\n- c\n* [x]d\n* [ ]\n",
    "- - a\n  - b\n\n  - > c\n    d\ne\n",
    "- a\nb\n > c\n  > d\n\n  e\n f\n\ng\n",
    ": a\nb\n\n  c\n: d\n\n: e\n  f\n",
    ": a\n\n  - b\n\n  c\n\n:\n\n  d\n: # e\n",
    "-\n\n  a\n-\n  b\n\n-\n",
    "+ a\n\n  ```\n  b\n\n   c\n  ```\n+ d\n",
    "1. a\n\n   1. b\n   2. c\n\n2. d\n\n> - e\n>\n>   f\n",
    # tables
    "|a|b|c|d|\n|:-|-:|:-:|---|\n|1|2|3|4|5|\n|6|\n",
    "|a|\n|-|\n|b|\n|:-|\n|c|\n|-:|\n",
    "|-|\n|a|\n\n|b|\n|:-:|\n",
    "| a *b* | `c|d` |\n|e\\|f|[g](h)|\n\n^ i\nj\n\nk\n",
    "|a|\n\n\n^ b `c\n|d|\n|e|f\n\n|\n||\n",
    "> |a|\n> |-|\n> |b|\n\n- |c|\n  |d|\n",
    # code, raw, verbatim, divs
    "````\n```\na\n````\n~~~ b\n```\n~~~~\n",
    "  ```a\n  b\n c\n    d\n  ```\n\n```b c\nd\n",
    "``` =html\n<b>\n\n ```\n``` =x\n&\n```\n",
    "> ```\n> a\n>  b\n\n- ~~~\n  c\n\n  d\n  ~~~\n  e\n",
    "`` a`b `` ` `` ` ```c`\n` d\n",
    "`a\nb` ``\nc``{.d} `e`{=html}{.f} `g`{=x y}\n",
    "$`a\nb` $$`c` \\$`d` $$$`e` $``f`g`` $h `i\n",
    "::: a\n:::\n:::: b\n::: c\nd\n:::\n::::\n::: e f\n",
    ":::\n```\n:::\n```\n# a\n:::\n\n:::b\nc\n",
    "a\n```\nb\n```\n> c\n```\nd\n",
    # inline
    "*a _b* c_ *d*e* f_g_h * i* *j *\n",
    "{*a*} *{b}* {*c* *d*} {_*e_}* {*\n",
    "**a** __b__ *_c_* _*d*_ ***e*** ****\n",
    "~a~^b^ {~c d~}{^e^} ~ f~ {-g-}{--h--} {=i=j=}\n",
    "x^2^y~3~ {+a {-b-} c+} {=*d*=} {+e\n",
    "\"a 'b' c\" 'd \"e\" f' '60s it's 'g\n",
    "{\"a\"} {'b'} \"{c}\" 'd' e' f\" {' \"}\n",
    "a--b a---b a----b -----c ------ ------- -}\n",
    "a... b.... c...... d.. \\...e .\\..\n",
    "a\\ b\\\n c\\ \t\nd\\e \\\\ \\\" \\é\n",
    ":a: :b :c-d+e_1: ::f:: :g\nh: i:j:k\n",
    "a  \n  b\t\n c\\\n\n  d\n",
    "é*ü*\u00a0ß{.x} “a” 'é' –\n",
    # blocks
    "a\n# b\n> c\n- d\n***\n\n> e\nf\n***\n",
    "> a\n\n> b\n>c\n>\n>  d\n > e\n",
    "***\n* * *\n*-*-\n- - -a\n --- \n---\na\n",
    "[a]: b\n[c]:\n d\n\n[e]: f g\n  h\ni\n",
    "a\r\n\r\n- b\r\n  c\\\r\n\r\n> d\r\n",
    "\n\na\n \n\t\nb\n\n",
    "####### a\n#b\n#\tc\n#\n## d ##\n### e\nf\n",
]

DOCS = INLINE + BLOCK

# everything together, used where one input should touch every element
RICH = (
    "{#i .c}\n# H _x_ `y`\n\np *a*{.b} [l](u \"t\")![i](s) -- \"q\" 'r'...[^1]\\\nz :s: $`m`\n\n"
    "> q\n\n- [x] t\n- u\n\n|a|b|\n|:-|-:|\n|c|d|\n^ cap\n\n::: d\n```k\nv\n```\n:::\n\n: t\n\n  d\n\n[^1]: n\n\n[r]: v\n\n---\n"
)
