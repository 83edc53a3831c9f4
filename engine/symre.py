"""re / html / unicodedata over symbolic strings.

The pattern is parsed by Python's own regex parser; matching is the usual
backtracking search with forks at character tests."""
import html as _html
import re as _re
import types
import unicodedata as _ud

try:
    import re._parser as sre_parse
    import re._constants as K
except ImportError:                                     # pragma: no cover
    import sre_parse
    import sre_constants as K
import z3

from . import core
from .core import SymBool, Unsupported
from .symstr import SymStr, char_pred, cps, isstr, mk

CATS = {
    "CATEGORY_SPACE": str.isspace, "CATEGORY_NOT_SPACE": lambda c: not c.isspace(),
    "CATEGORY_DIGIT": str.isdecimal, "CATEGORY_NOT_DIGIT": lambda c: not c.isdecimal(),
    "CATEGORY_WORD": lambda c: c.isalnum() or c == "_", "CATEGORY_NOT_WORD": lambda c: not (c.isalnum() or c == "_"),
}


def fork(b):
    return core.CTX.branch(b.z) if isinstance(b, SymBool) else bool(b)


class M:
    def __init__(self, s, start, end, groups, pat):
        self.string, self._s, self._e, self._g, self.re = s, start, end, groups, pat

    def _idx(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return (self._s, self._e)
        return self._g.get(g)

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            r = self._idx(g)
            out.append(None if r is None else self.string[r[0]:r[1]])
        return out[0] if len(out) == 1 else tuple(out)
    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(i) if self._idx(i) else default for i in range(1, self.re.groups + 1))

    def start(self, g=0): return self._idx(g)[0]
    def end(self, g=0): return self._idx(g)[1]
    def span(self, g=0): return self._idx(g)


class Pattern:
    def __init__(self, pat, flags=0):
        self.pattern, self.flags = pat, int(flags)
        self.real = _re.compile(pat, flags)
        self.tree = sre_parse.parse(pat, int(flags))
        self.groups, self.groupindex = self.real.groups, self.real.groupindex
        fl = self.tree.state.flags
        self.i = bool(fl & _re.I)
        self.m = bool(fl & _re.M)
        self.dotall = bool(fl & _re.S)
        self.ascii = bool(fl & _re.A)

    # ---- char tests
    def lit(self, c, code, neg=False):
        if self.i:
            v = {code} | {ord(x) for x in (chr(code).lower(), chr(code).upper()) if len(x) == 1}
            t = char_pred(c, lambda ch: (ord(ch) in v) != neg, "i%r%d" % (sorted(v), neg))
        else:
            if isinstance(c, int):
                return (c == code) != neg
            e = z3.simplify(c == code)
            t = core.mkbool(z3.Not(e) if neg else e)
        return fork(t)

    def in_set(self, c, items):
        neg = False
        tests = []
        for op, av in items:
            if op is K.NEGATE:
                neg = True
            elif op is K.LITERAL:
                tests.append(lambda ch, av=av: ord(ch) == av)
            elif op is K.RANGE:
                tests.append(lambda ch, av=av: av[0] <= ord(ch) <= av[1])
            elif op is K.CATEGORY:
                tests.append(CATS[str(av)])
            else:
                raise Unsupported("regex set item %s" % op)

        def fn(ch):
            alts = {ch}
            if self.i:
                alts |= {ch.lower(), ch.upper()}
            r = any(t(x) for t in tests for x in alts if len(x) == 1)
            return r != neg
        return fork(char_pred(c, fn, "set:%r:%d" % (items, self.i)))

    def match_seq(self, items, k, s, i, g):
        """yield (end, groups)"""
        if k == len(items):
            yield i, g
            return
        op, av = items[k]
        n = len(s)
        if op is K.LITERAL or op is K.NOT_LITERAL:
            if i < n and self.lit(s[i], av, op is K.NOT_LITERAL):
                yield from self.match_seq(items, k + 1, s, i + 1, g)
        elif op is K.ANY:
            if i < n and (self.dotall or self.lit(s[i], 10, True)):
                yield from self.match_seq(items, k + 1, s, i + 1, g)
        elif op is K.IN:
            if i < n and self.in_set(s[i], av):
                yield from self.match_seq(items, k + 1, s, i + 1, g)
        elif op is K.BRANCH:
            for alt in av[1]:
                for e, g2 in self.match_seq(list(alt), 0, s, i, g):
                    yield from self.match_seq(items, k + 1, s, e, g2)
        elif op is K.SUBPATTERN:
            gid, af, df, sub = av
            for e, g2 in self.match_seq(list(sub), 0, s, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, e)
                yield from self.match_seq(items, k + 1, s, e, g2)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
            lo, hi, sub = av
            sub = list(sub)
            hi = 10 ** 9 if hi is K.MAXREPEAT else hi

            def rep(cnt, j, gg):
                if op is K.MIN_REPEAT and cnt >= lo:
                    yield j, gg
                if cnt < hi:
                    for e, g2 in self.match_seq(sub, 0, s, j, gg):
                        if e == j and cnt >= lo:
                            continue
                        yield from rep(cnt + 1, e, g2)
                if op is not K.MIN_REPEAT and cnt >= lo:
                    yield j, gg
            for e, g2 in rep(0, i, g):
                yield from self.match_seq(items, k + 1, s, e, g2)
        elif op is K.AT:
            nm = str(av)
            if nm in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                ok = i == 0 or (nm == "AT_BEGINNING" and self.m and self.lit(s[i - 1], 10))
            elif nm == "AT_END":
                ok = i == n or (i == n - 1 and self.lit(s[i], 10)) or (self.m and i < n and self.lit(s[i], 10))
            elif nm == "AT_END_STRING":
                ok = i == n
            elif nm in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                w = lambda j: 0 <= j < n and fork(char_pred(s[j], CATS["CATEGORY_WORD"], "word"))
                ok = (w(i - 1) != w(i)) == (nm == "AT_BOUNDARY")
            else:
                raise Unsupported("regex anchor %s" % nm)
            if ok:
                yield from self.match_seq(items, k + 1, s, i, g)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            if d > 0:
                hit = any(True for _ in self.match_seq(list(sub), 0, s, i, g))
            else:
                lo, hi = sub.getwidth()
                hit = any(e == i for w in range(lo, min(hi, i) + 1) for e, _ in self.match_seq(list(sub), 0, s, i - w, g))
            if hit == (op is K.ASSERT):
                yield from self.match_seq(items, k + 1, s, i, g)
        elif op is K.GROUPREF:
            r = g.get(av)
            if r is not None:
                w = s[r[0]:r[1]]
                from .symstr import eq_formula
                if i + len(w) <= n and fork(eq_formula(w, s[i:i + len(w)])):
                    yield from self.match_seq(items, k + 1, s, i + len(w), g)
        elif str(op) == "ATOMIC_GROUP":
            for e, g2 in self.match_seq(list(av), 0, s, i, g):
                yield from self.match_seq(items, k + 1, s, e, g2)
                break
        else:
            raise Unsupported("regex op %s" % op)

    def at(self, s, i, full=False):
        cs = cps(s)
        for e, g in self.match_seq(list(self.tree), 0, cs, i, {}):
            if full and e != len(cs):
                continue
            return M(s, i, e, g, self)
        return None

    # ---- api
    def match(self, s, pos=0, *a):
        return self.at(s, pos) if isinstance(s, SymStr) else self.real.match(s, pos, *a)

    def fullmatch(self, s, *a):
        return self.at(s, 0, True) if isinstance(s, SymStr) else self.real.fullmatch(s, *a)

    def search(self, s, pos=0, *a):
        if not isinstance(s, SymStr):
            return self.real.search(s, pos, *a)
        for i in range(pos, len(s) + 1):
            m = self.at(s, i)
            if m:
                return m
        return None

    def finditer(self, s, *a):
        if not isinstance(s, SymStr):
            yield from self.real.finditer(s, *a)
            return
        i, last_end = 0, -1
        while i <= len(s):
            m = self.at(s, i)
            if m is None or (m._e == m._s and m._s == last_end):
                i += 1
                continue
            yield m
            last_end = m._e
            i = m._e if m._e > m._s else m._e + 0
            if m._e == m._s:
                i = m._s + 1

    def findall(self, s, *a):
        if not isinstance(s, SymStr):
            return self.real.findall(s, *a)
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m._idx(1) else "")
            else:
                out.append(tuple(m.groups("")))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        if not isinstance(s, SymStr):
            return self.real.subn(repl, s, count)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.extend(s.c[last:m._s])
            if callable(repl):
                r = repl(m)
            elif isinstance(repl, str) and "\\" in repl:
                parts = _re.split(r"(\\\d|\\g<\w+>)", repl)
                r = ""
                for p in parts:
                    if _re.fullmatch(r"\\\d", p):
                        r = r + (m.group(int(p[1:])) or "")
                    elif p.startswith("\\g<"):
                        nm = p[3:-1]
                        r = r + (m.group(int(nm) if nm.isdigit() else nm) or "")
                    else:
                        r = r + p.encode().decode("unicode_escape")
            else:
                r = repl
            out.extend(cps(r))
            last = m._e
            n += 1
        out.extend(s.c[last:])
        return mk(out), n

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.real.split(s, maxsplit)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mk(s.c[last:m._s]))
            out.extend(m.groups())
            last = m._e
            n += 1
        out.append(mk(s.c[last:]))
        return out


_cache = {}


def comp(p, flags=0):
    if isinstance(p, Pattern):
        return p
    if isinstance(p, SymStr):
        raise Unsupported("symbolic regular expression")
    k = (p, int(flags))
    if k not in _cache:
        _cache[k] = Pattern(p, flags)
    return _cache[k]


def module():
    m = types.ModuleType("re")
    for n in dir(_re):
        setattr(m, n, getattr(_re, n))
    m.compile = comp
    for n in ("match", "fullmatch", "search", "findall", "finditer", "split"):
        setattr(m, n, (lambda n: lambda p, s, *a, flags=0, **k: getattr(comp(p, flags), n)(s, *a, **k))(n))
    m.sub = lambda p, r, s, count=0, flags=0: comp(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: comp(p, flags).subn(r, s, count)
    m.escape = _re.escape
    return m


def unicodedata_module():
    m = types.ModuleType("unicodedata")
    for n in dir(_ud):
        setattr(m, n, getattr(_ud, n))

    def normalize(form, s):
        if not isinstance(s, SymStr):
            return _ud.normalize(form, s)
        r = s._map(lambda ch: _ud.normalize(form, ch), "nf" + form)
        if form in ("NFC", "NFKC"):
            for c in cps(r):
                if fork(char_pred(c, lambda ch: _ud.combining(ch) != 0, "comb")):
                    raise Unsupported("composition")
        return r
    m.normalize = normalize

    def category(c):
        if isinstance(c, SymStr):
            c = c.concretize()
        return _ud.category(c)
    m.category = category
    m.combining = lambda c: _ud.combining(c if isinstance(c, str) else c.concretize())
    return m


def html_module():
    m = types.ModuleType("html")
    pat = _html._charref.pattern

    def unescape(s):
        if not isinstance(s, SymStr):
            return _html.unescape(s)
        if s.find("&") < 0:
            return s
        return comp(pat).sub(lambda mm: _html.unescape(mm.group() if isinstance(mm.group(), str) else mm.group().concretize()), s)
    m.unescape = unescape

    def escape(s, quote=True):
        if not isinstance(s, SymStr):
            return _html.escape(s, quote)
        s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        return s.replace('"', "&quot;").replace("'", "&#x27;") if quote else s
    m.escape = escape
    return m
