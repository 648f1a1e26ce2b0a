"""Scenario generators for terms, expressions and trees."""
import re, sys
from gen import G, Rx, cp, uncp, all_texts, TAGS, UTAGS

OPSIGNS = ['==', '!=', '<', '<=', '>', '>=', '=', '~=']
WS = [' ', '\t', '\n', '\r', '\x0b', '\x0c', '\x85', '\xa0', '\u1680', '\u2000', '\u2009', '\u2028', '\u2029', '\u202f', '\u205f', '\u3000']
FAKEWS = ['\u200b', '\ufeff', '\u180e', '\x1c', '\x1f', '\x00']


def stem_ok(s):
    """A version text usable behind an operator or before a wildcard without changing what the term is."""
    return (s != '' and not any(c.isspace() or c in '\x85\u1680\u180e' for c in s) and s[0] not in '<>=!~^' and s[-1] not in '$*'
            and '*' not in s and '@' not in s and not s.endswith('.'))


class T:
    def __init__(self, g):
        self.g = g

    def stem(self, **kw):
        while True:
            s = self.g.ver_ok(**kw)
            if self.g.chance(0.1) and '+' not in s:
                s += self.g.pick(['.0', '.0', '.0.0', '-00', '.0.0.0'])
            if stem_ok(s):
                return s

    def cands(self, v, n):
        """Candidate versions around v: itself, relatives, continuations, and strangers."""
        g = self.g
        out = [v]
        # all but the last components, all but the last zeros
        for t in (re.sub(r'([._\-]0+)+$', '', v), v[:max(map(v.rfind, '._-'), default=0)] if any(c in v for c in '._-') else v):
            if g.ok(t) and t not in out and len(out) < n - 1:
                out.append(t)
        guard = 0
        while len(out) < n and guard < 200:
            guard += 1
            x = g.r.random()
            if x < 0.35:
                t = g.mutant(v)
            elif x < 0.6:
                t = g.mutant(g.pick(out))
            elif x < 0.85:
                t = v + g.pick(['.', '-', '_', '']) + (g.num() if g.chance(0.5) else g.tag())
            elif x < 0.93:
                t = v + g.pick(['.0', '.0.0', '.1', '.post1', '.dev1', 'a', 'rc1', '.a', '-1', '.0a', '0', '1'])
            else:
                t = g.ver_ok()
            if g.ok(t) and t not in out:
                out.append(t)
        g.r.shuffle(out)
        return out

    # -- relational
    def rel(self):
        g = self.g
        while True:
            if g.chance(0.08) and g.corpus()[1]:
                t = g.pick(g.corpus()[1])
                m = re.fullmatch(r'(==|!=|<=|>=|<|>|)([^<>=!~^$*,|() ]+)', t)
                if m and g.ok(m.group(2)):
                    return t, m.group(2)
            v = self.stem()
            o = g.pick(['==', '!=', '<', '<=', '>', '>=', ''])
            if o == '':
                if '@' in v or v[-1] in '*$' or v[0] in '^':
                    continue
                return v, v
            st = '.*' if o != '!=' and g.chance(0.25) else ''
            if st and g.chance(0.2) and g.ok(v + '.*'):
                return o + v + '.*.*', v + '.*'      # one '.*' is ignored
            if o and g.chance(0.03) and g.ok(v + '*'):
                return o + v + '*', v + '*'          # no '.*' at all
            return o + v + st, v

    def wild(self):
        g = self.g
        v = self.stem()
        k = g.r.randrange(8)
        if g.chance(0.06) and g.ok(v + '.*'):
            return g.pick(['!=', '!=', '=']) + v + '.*.*', v + '.*'      # one '.*' is ignored
        t = [v + '.*', v + '*', '=' + v, '=' + v + '.*', '!=' + v + '.*', v + g.pick(['**', '.**', '..*', '*.*'.replace('*.', '')]), '=' + v,
             '!=' + v + '.*'][k]
        return t, v

    # -- by text
    def globtext(self):
        g = self.g
        while True:
            v = self.stem(unicode=g.chance(0.3))
            if re.search(r'[\\()\[\]{}|?^$!<>=~,]', v):
                continue
            n = g.r.choice([1, 1, 2, 2, 3, 4])
            t = list(v)
            for _ in range(n):
                i, j = sorted(g.r.randrange(len(t) + 1) for _ in 'ab')
                if g.chance(0.5):
                    t[i:j] = ['*']
                else:
                    t[i:i] = ['*']
            t = ''.join(t)
            if g.chance(0.15):
                t += '*'
            if '*' not in t.rstrip('*') or t[0] in '<>=!~^' or t[-1] == '$':
                continue
            return t, v

    def globcands(self, t, v, n):
        g = self.g
        out = [v]
        guard = 0
        while len(out) < n and guard < 200:
            guard += 1
            x = g.r.random()
            if x < 0.55:
                # fill the stars
                s = ''.join((g.pick(['', '', '0', '1', 'a', '.', '.1', '1.2', 'post', 'x.y', '+'.replace('+', '_')]) if c == '*' else c) for c in t)
                if g.chance(0.2):
                    s = g.pick(['0', 'a', '1.', 'é']) + s
                if g.chance(0.2):
                    s = s + g.pick(['0', 'a', '.1', 'é'])
                if g.chance(0.2):
                    # the literal characters that a regex would read differently
                    s = s.replace('.', g.pick(['-', 'x', '0', '..', '']), 1)
                if g.chance(0.1):
                    s = s.replace('+', '', 1)
            else:
                s = g.mutate(v)
            if g.ok(s) and s not in out and '\n' not in s:
                out.append(s)
        return out

    def attext(self):
        g = self.g
        while True:
            v = self.g.version(unicode=g.chance(0.4))
            i = g.r.randrange(len(v) + 1)
            t = v[:i] + '@' + v[i:]
            if '*' in t or t[0] in '<>=!~^' or t[-1] == '$' or any(c in t for c in '()|,'):
                continue
            return t

    def junk(self, n=None):
        g = self.g
        al = g.pick(['<>=!~', '<>=!~1.*', '^$1.a*', '01.*@', '()|,1', '=!<>~^$*.@ 1a', '0.a*+!', None])
        k = n or g.r.randrange(0, 9)
        if al is None:
            return ''.join(g.pick(TAGS + UTAGS + OPSIGNS + ['1', '.', '*', ' ', '\n']) for _ in range(k))
        return ''.join(g.pick(al) for _ in range(k))

    def anyterm(self):
        """Any text as a term, most of them nearly right."""
        g = self.g
        x = g.r.random()
        if x < 0.2:
            t = self.rel()[0]
        elif x < 0.35:
            t = self.wild()[0]
        elif x < 0.42:
            t = self.globtext()[0]
        elif x < 0.47:
            t = self.attext()
        elif x < 0.6:
            t = self.junk()
        elif x < 0.68:
            return g.pick(['==', '!=', '<', '<=', '>', '>=', '=', '~=', '!', '~', '=<', '=>', '=!', '=~', '===', '!==', '<>', '<<', '>>', '<==', '!!', '~~',
                           '!~=', '!=startswith', '~', '!<', '≥', '≤', '=>=', '>=<', '&', '<!']) + \
                g.pick(['', ' ', '=', '1', '1.2', ' 1.2', '1.2 ', '1 .2', '.*', '*', '1.*', '1.2.*', '1*', '1.2**', '@', 'a', '1!2', '1!2!3', 'a!1', '1+2+3', '+', '!', '\t1',
                        '1\u00a0', '99999!1', '1\u200b', '==1', '^1$', '$', '1$', '^1'])
        elif x < 0.75:
            t = g.pick(['^', '']) + self.junk() + g.pick(['$', ''])
        elif x < 0.82:
            t = g.pick(['~=', '~']) + self.stem() + g.pick(['', '', '.*', '*'])
        else:
            t = g.pick(['', '', '==', '<', '>=', '!=', '=']) + g.version() + g.pick(['', '', '.*', '*'])
        if g.chance(0.25):
            i = g.r.randrange(len(t) + 1)
            t = t[:i] + g.pick(list('<>=!~^$*.@ ()|,+!01a\n\t') + WS + ['.*', '==', '+1', '1!', 'é']) + t[i:]
        if g.chance(0.1) and t:
            i = g.r.randrange(len(t))
            t = t[:i] + t[i + 1:]
        return t


# ---- expressions -----------------------------------------------------------------------------------

def tokens(t):
    """The generator's own tokens, for the list of terms (the specification checks it)."""
    t = '(' + t + ')'
    out = []
    p = 0
    isw = lambda c: c in ' \t\n\r\x0b\x0c\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000' or '\u2000' <= c <= '\u200a'
    while True:
        while p < len(t) and isw(t[p]):
            p += 1
        if p >= len(t):
            return out
        e = None
        if t[p] == '^':
            d = t.find('$', p)
            e = d if d >= 0 else None
        if e is None:
            if t[p] in '()|,':
                e = p
            else:
                e = p
                while e < len(t) and t[e] not in '()|,':
                    e += 1
                e -= 1
        k = t[p:e + 1]
        while k and isw(k[-1]):
            k = k[:-1]
        while k and isw(k[0]):
            k = k[1:]
        out.append(k)
        p = e + 1


def terms_of(t):
    return [k for k in tokens(t) if k not in ('(', ')', '|', ',')]


class E:
    """Boolean expressions."""

    def __init__(self, g, leaf=None):
        self.g = g
        self.t = T(g)
        self.leaf = leaf or self.goodterm
        self.recent = []

    def relative(self):
        """A term about a version that an earlier term is about, or one written almost like it."""
        g = self.g
        for _ in range(20):
            v = g.pick(self.recent)
            x = g.r.randrange(9)
            v = v + '0' if x == 0 else v + '.0' if x == 1 else v[:-1] if x == 2 else v + g.pick('123456789ab') if x == 3 else g.mutant(v) if x == 4 else \
                g.respell(v) if x == 5 else v.swapcase() if x == 6 else v
            t = g.pick(['', '', '', '==', '!=', '<', '<=', '>', '>=']) + v + g.pick(['', '', '', '', '.*'])
            if stem_ok(v) and g.ok(v) and len(v) < 120 and not any(c in t for c in '()|,^$') and t[-1] not in '*$' and terms_of(t) == [t]:
                self.recent.append(v)
                return t
        return None

    def goodterm(self):
        g = self.g
        if self.recent and g.chance(0.3):
            t = self.relative()
            if t is not None:
                return t
        t = self.otherterm()
        v = t.lstrip('=<>!').rstrip('*').rstrip('.')
        if t[0] not in '^*' and stem_ok(v) and g.ok(v):
            self.recent = self.recent[-5:] + [v]
        return t

    def otherterm(self):
        g = self.g
        x = g.r.random()
        while True:
            t = self.t.rel()[0] if x < 0.5 else self.t.wild()[0] if x < 0.7 else '*' if x < 0.75 else self.t.globtext()[0] if x < 0.85 \
                else g.pick(['^1.*$', '^(1|2).*$', '^1[.,]2$', '^[(]$', '^a|b$', '^(a,b)$', '^1$', '^.*$', '^ 1$']) if x < 0.95 else self.t.attext()
            if t[0] != '^' and any(c in t for c in '()|,^$'):
                x = g.r.random()
                continue
            if terms_of(t) != [t]:
                x = g.r.random()
                continue
            return t

    def ast(self, d, n=3):
        g = self.g
        if d <= 0 or g.chance(0.15):
            return ('t', self.leaf())
        k = g.r.choice([2, 2, 2, 3, 3, n])
        return (g.pick(['And', 'Or']), [self.ast(d - 1 - g.r.randrange(2), n) for _ in range(k)])

    def chain(self, d, flip=True):
        """A deeply nested one."""
        g = self.g
        a = ('t', self.leaf())
        c = g.pick(['And', 'Or'])
        for _ in range(d):
            b = [a, ('t', self.leaf())]
            if g.chance(0.5):
                b.reverse()
            a = (c, b)
            if flip or g.chance(0.5):
                c = 'Or' if c == 'And' else 'And'
        return a

    def flat(self, n):
        g = self.g
        c = g.pick(['And', 'Or'])
        return (c, [('t', self.leaf()) for _ in range(n)])

    def ws(self, p=0.3):
        g = self.g
        return g.pick([' ', ' ', '  ', '\t', '\n', ' \n ', '\u3000', '\xa0']) if g.chance(p) else ''

    def write(self, a, wsp=0.0, par=0.0, parent=None):
        """Text of an expression, with parentheses where they are needed and, with probability par, elsewhere."""
        g = self.g
        if a[0] == 't':
            s = self.ws(wsp) + a[1] + self.ws(wsp)
            n = 0
            while g.chance(par) and n < 3:
                s = self.ws(wsp) + '(' + s + ')' + self.ws(wsp)
                n += 1
            return s
        op = ',' if a[0] == 'And' else '|'
        s = op.join(self.write(x, wsp, par, a[0]) for x in a[1])
        need = parent is not None and not (parent == 'Or' and a[0] == 'And') and parent != a[0]
        if parent == a[0]:
            need = g.chance(0.5) if par else g.chance(0.5)
        if parent == 'Or' and a[0] == 'And':
            need = g.chance(0.4)
        n = 1 if need else 0
        while g.chance(par) and n < 4:
            n += 1
        for _ in range(n):
            s = self.ws(wsp) + '(' + s + ')' + self.ws(wsp)
        return s

    def leaves(self, a):
        return [a[1]] if a[0] == 't' else [x for b in a[1] for x in self.leaves(b)]

    def spoil(self, s):
        g = self.g
        x = g.r.randrange(6)
        i = g.r.randrange(len(s) + 1)
        if x == 0:
            return s[:i] + g.pick('()|,') + s[i:]
        sp = [k for k, c in enumerate(s) if c in '()|,']
        if x == 1 and sp:
            k = g.pick(sp)
            return s[:k] + s[k + 1:]
        if x == 2 and sp:
            k = g.pick(sp)
            return s[:k] + g.pick('()|,') + s[k + 1:]
        if x == 3:
            return s[:i]
        if x == 4:
            return s + g.pick(['(', ')', '|', ',', '()', ' 1', '(1)', '|)', '$', '^'])
        return g.pick(['(', ')', '|', ',', '()', '1 ', '(1)', ')(', '^']) + s


def hand(a):
    """The tree as built through the public fields."""
    if a[0] == 't':
        return {'k': 't', 't': cp(a[1])}
    return {'k': 'n', 'c': a[0], 'p': [hand(x) for x in a[1]]}
