"""Job templates: concrete bytes with symbolic holes."""


class Set:
    def __init__(self, chars, name=None):
        if isinstance(chars, str):
            chars = chars.encode()
        self.b = frozenset(chars)
        self.name = name or "".join(map(chr, sorted(self.b)))

    def __or__(self, o):
        return Set(self.b | o.b)

    def __sub__(self, o):
        return Set(self.b - o.b)

    def key(self):
        w = [0, 0, 0, 0]
        for c in self.b:
            w[c // 64] |= 1 << (c % 64)
        return "".join("%016x" % x for x in w)


def rng(a, z):
    return Set(bytes(range(ord(a), ord(z) + 1)))


ASCII = Set(bytes(range(128)), "ascii")
PRINT = Set(bytes(range(32, 127)), "printable")
DIGIT = rng("0", "9")
LOWER = rng("a", "z")
UPPER = rng("A", "Z")
ALPHA = LOWER | UPPER
ALNUM = ALPHA | DIGIT
PUNCT = PRINT - ALNUM - Set(" ")
TEXT = PRINT | Set("\n")           # printable or line end
NOCTL = PRINT | Set("\n\t")
CONT = Set(bytes(range(0x80, 0xC0)), "utf8-tail")


class V:
    """Re-use of the k-th symbolic byte of the job."""

    def __init__(self, k):
        self.k = k


class Job:
    def __init__(self, name, oracle, parts, choice=()):
        self.name, self.oracle, self.parts, self.choice = name, oracle, parts, choice


def cells(parts, sets):
    out = []
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        if isinstance(p, (bytes, bytearray)):
            if p:
                out.append("x" + p.hex())
        elif isinstance(p, Set):
            out.append("d%d" % sets.setdefault(p.key(), len(sets)))
        elif isinstance(p, V):
            out.append("v%d" % p.k)
        elif isinstance(p, (list, tuple)):
            out += cells(p, sets)
        elif isinstance(p, int):
            out.append("x%02x" % p)
        else:
            raise TypeError(p)
    return out


def serialise(jobs):
    sets, lines, seen = {}, [], {}
    for j in jobs:
        n = j.name.replace(" ", "_").replace(":", ";")
        seen[n] = seen.get(n, 0) + 1
        if seen[n] > 1:
            n += "#%d" % seen[n]
        c = cells(j.parts, sets)
        d = cells(j.choice, sets)
        lines.append("job %s %d %s | %s" % (n, j.oracle, " ".join(c), " ".join(d)))
    head = ["set %d %s" % (i, k) for k, i in sets.items()]
    return "\n".join(head + lines) + "\n"


def hole(text, **doms):
    """'a@b' style templates: each character that is a key of doms becomes a hole."""
    out, buf = [], ""
    for ch in text:
        if ch in doms:
            out.append(buf)
            buf = ""
            out.append(doms[ch])
        else:
            buf += ch
    out.append(buf)
    return [x for x in out if x != ""]


def exhaustive(name, oracle, n, dom, pre="", post="", choice=()):
    return Job("%s%d" % (name, n), oracle, [pre] + [dom] * n + [post], choice)


def subst1(name, oracle, doc, dom, choice=(), step=1, start=0):
    """Every single-character substitution of doc (one job per position, ASCII positions only)."""
    b = doc.encode()
    js = []
    for i in range(start, len(b), step):
        if b[i] < 128:
            js.append(Job("%s.sub%d" % (name, i), oracle, [b[:i], dom, b[i + 1:]], choice))
    return js


def insert1(name, oracle, doc, dom, choice=(), step=1, start=0):
    b = doc.encode()
    js = []
    for i in range(start, len(b) + 1, step):
        if i == len(b) or (b[i] & 0xC0) != 0x80:
            js.append(Job("%s.ins%d" % (name, i), oracle, [b[:i], dom, b[i:]], choice))
    return js


def window(name, oracle, doc, dom, k, choice=(), step=1):
    """Every window of k consecutive characters replaced by arbitrary ones."""
    b = doc.encode()
    js = []
    for i in range(0, len(b) - k + 1, step):
        if all(x < 128 for x in b[i:i + k]):
            js.append(Job("%s.win%d_%d" % (name, k, i), oracle, [b[:i]] + [dom] * k + [b[i + k:]], choice))
    return js
