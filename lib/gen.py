"""Scenario generators. Texts are Python strings; commands carry them as arrays of code points."""
import itertools, json, os, random, re

REPO = '/repo'


def cp(s):
    return [ord(c) for c in s]


def uncp(a):
    return ''.join(map(chr, a))


# ---- literals of the library's sources ------------------------------------------------------------

def source_literals():
    """Integers and short strings in the non-test sources: special cases hide behind literals."""
    ints, strs, phrases = set(), set(), set()
    for root in ('core/src', 'python/src'):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            if 'graph' in ds:
                ds.remove('graph')
            if 'resolve' in ds:
                ds.remove('resolve')
            for f in sorted(fs):
                if not f.endswith('.rs'):
                    continue
                s = open(os.path.join(d, f), errors='replace').read()
                s = s.split('#[cfg(test)]')[0]
                s = re.sub(r'//.*', '', s)
                for m in re.finditer(r'(?<![\w."])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|size))?(?![\w"])', s):
                    try:
                        ints.add(int(m.group(1).replace('_', ''), 0))
                    except ValueError:
                        pass
                for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
                    t = m.group(1)
                    try:
                        t = t.encode().decode('unicode_escape') if '\\' in t else t
                    except Exception:
                        continue
                    for t in [t] + re.split(r'\{[^{}]*\}', t):
                        if 0 < len(t) <= 24 and all(32 <= ord(c) < 127 for c in t):
                            strs.add(t)
                        if 0 < len(t) <= 200:
                            phrases.add(t)
                for m in re.finditer(r"'([^'\\])'", s):
                    if 32 <= ord(m.group(1)) < 127:
                        strs.add(m.group(1))
    return sorted(ints), sorted(strs), sorted(phrases)


SEPS = ['.', '.', '.', '.', '_', '-']
NUMS = ['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '11', '12', '19', '20', '21', '99', '100', '101', '123', '127', '128',
        '255', '256', '999', '1000', '1024', '2020', '9999', '10000', '32767', '32768', '65535', '65536', '99999', '100000', '1000000',
        '16777216', '20200101', '999999999', '1000000000', '2147483646', '2147483647', '00', '01', '02', '007', '010', '000', '0001',
        '0000000000000000000000005', '00000000002147483647', '100000000', '1999999999', '2000000000']
TAGS = ['a', 'b', 'c', 'd', 'p', 'rc', 'alpha', 'beta', 'gamma', 'dev', 'post', 'pre', 'x', 'z', 'de', 'ev', 'pos', 'ost', 'pst',
        'g', 'gabcdef', 'final', 'rev', 'r', 'm', 'devel', 'develop', 'posterior', 'predev', 'xpostx', 'adev', 'devpost', 'postdev',
        'ad', 'do', 'dew', 'dez', 'pot', 'pou', 'aa', 'ab', 'abc', 'abd', 'alphabet', 'alphb', 'ALPHA', 'Alpha', 'aLPHA', 'RC', 'Rc', 'DEV',
        'Dev', 'dEv', 'POST', 'Post', 'pOsT', 'PostDev', 'DEVPOST', 'A', 'B', 'Z', 'a~b', '~', '*', '@', 'a b', ' ', ' a', 'a ', '\t', '%',
        '#', '=', '>', '<', '/', '\\', '"', "'", '(', ')', '[', '^', '$', '?', ',', '|', '&', ':', ';', '{', '}', '`']
UTAGS = ['é', 'É', 'ß', 'ss', 'SS', 'ẞ', 'ſ', 's', 'S', 'ſs', 'poſt', 'POſT', 'pöst', 'dév', 'dεv', 'Ω', 'ω', '\u2126', 'Σ', 'σ', 'ς', 'я', 'Я',
         'ж', 'Ж', 'devЖ', 'Жpost', 'K', 'k', '\u212a', 'å', 'Å', '\u212b', '中', '文', '中文', '日', '😀', '😀a', 'a😀', '\u0301', 'e\u0301',
         '\u00a0', '\u2003', '\u200b', '\ufeff', '²', '½', 'Ⅷ', 'ﬁ', 'fi', 'FI', 'ŉ', 'ı', 'İ', 'i', 'I', 'ǰ', '\u0345', 'ι', 'Ａ', 'ａ',
         '٣', '١٢', '५', '５', '0٣', '٣0', '\U0001d7d8', '\x00', '\x7f', '\n', '\u2028', '\ud7ff', '\ue000', '\U0010ffff', 'Þ', 'þ', 'Ա', 'ա']


class G:
    def __init__(self, seed, tag, tier):
        self.r = random.Random('%s/%s' % (seed, tag))
        self.tier = tier
        self.heavy = tag in ('C19', 'C20', 'C21', 'C22', 'C27', 'C29')
        self.ints, self.strs, self.phrases = source_literals()
        near = sorted({n + d for n in self.ints for d in (-1, 0, 1) if n + d >= 0})
        self.dnums = [str(n) for n in near if n <= 2147483647]
        self.dsizes = [n for n in near if 2 <= n <= 120]
        self.dlens = [n for n in near if 2 <= n <= 600]
        self.dtags = [s for s in self.strs if not re.search(r'[!+._\-0-9]', s)]

    def n(self, quick, factor=None):
        """How many: the base number, more of it in the tiers (factor: at most so many times)."""
        f = (20 if self.heavy else 40) if self.tier == 'thorough' else 1.5 if self.heavy else 2.5
        return int(quick * min(f, factor or f))

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    # -- pieces
    def num(self):
        x = self.r.random()
        if x < 0.45:
            return str(self.r.randrange(0, 13))
        if x < 0.75:
            return self.pick(NUMS)
        if x < 0.82 and self.dnums:
            return self.pick(self.dnums)
        if x < 0.9:
            return str(self.r.randrange(0, 10 ** self.r.randrange(1, 10)))
        return '0' * self.r.randrange(0, 4) + str(self.r.randrange(0, 2147483648))

    def word(self):
        k = self.r.choice([1, 1, 2, 3, 4, 6, 9, 20])
        return ''.join(self.pick('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ') for _ in range(k))

    def tag(self, unicode=True):
        x = self.r.random()
        if x < 0.55:
            return self.pick(TAGS[:66])
        if x < 0.62:
            return self.pick(TAGS)
        if x < 0.74 and unicode:
            return self.pick(UTAGS)
        if x < 0.8 and self.dtags:
            return self.pick(self.dtags)
        if x < 0.9:
            w = self.word()
            return w if not self.chance(0.3) else w[:len(w) // 2] + self.pick(['dev', 'post', 'DEV', 'Post']) + w[len(w) // 2:]
        return self.recase(self.pick(['dev', 'post', 'alpha', 'beta', 'rc', 'pre', 'postdev', 'devpost', 'straße', 'ΣΑΣ', 'жук']) if unicode
                           else self.pick(['dev', 'post', 'alpha', 'beta', 'rc', 'pre']))

    def recase(self, s):
        return ''.join(self.pick([c.lower(), c.upper(), c.lower()]) if len(c.upper()) == 1 and len(c.lower()) == 1 else c for c in s)

    def size(self, big=True):
        x = self.r.random()
        if x < 0.72:
            return self.r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
        if x < 0.9:
            return self.r.randrange(1, 13)
        if x < 0.95 and self.dsizes:
            return self.pick(self.dsizes)
        if x < 0.985 or not big:
            return self.r.randrange(7, 34)
        return self.r.randrange(30, 140)

    def release(self, k=None, tags=0.25, unicode=True, sep=None):
        k = k or self.size()
        out = []
        for i in range(k):
            if self.chance(tags):
                x = self.r.random()
                t = self.tag(unicode)
                out.append(t if x < 0.3 else self.num() + t if x < 0.6 else t + self.num() if x < 0.8 else self.num() + t + self.num())
            else:
                out.append(self.num())
        if sep is None:
            sep = None if self.chance(0.25) else '.'
        s = out[0]
        for o in out[1:]:
            s += (sep or self.pick(SEPS)) + o
        return s

    def epoch(self):
        return self.pick(['0', '1', '1', '2', '3', '9', '10', '-1', '-2', '+1', '00', '01', '007', '-0', '+0', '32767', '-32768', '32766',
                          '-32767', '100', '256', '0000000001', '+32767', str(self.r.randrange(-32768, 32768))])

    def local(self):
        x = self.r.random()
        if x < 0.3:
            return self.pick(['1', '2', '10', '1.2', '4.5.6', '4', '5', 'abc', 'ABC', 'Abc', 'dev', 'post', 'a.b', 'a-b_c', '0', '.', '-', '_', 'g123'])
        if x < 0.55:
            return self.word()
        if x < 0.65:
            return self.serial()
        if x < 0.8:
            return self.release(self.r.randrange(1, 5))
        return self.pick(UTAGS) + (self.word() if self.chance(0.5) else '')

    def serial(self):
        """A date, a build number, a hash."""
        k = self.r.choice([1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 14, 20, 40])
        return ''.join(self.pick('0123456789abcdef' if k > 20 else '0123456789') for _ in range(k))

    def clean(self, s):
        return s.replace('!', '.').replace('+', '.')

    def version(self, tags=0.25, epoch=0.12, local=0.12, unicode=True, k=None):
        s = self.clean(self.release(k, tags=tags, unicode=unicode))
        if self.chance(0.06):
            s = self.pick(['', '.', 'v', '..', '-', '_', '.a', '0', '00', ' ']) + s
        if self.chance(0.05):
            s += self.pick(['.', '-', '_', '..', '._'])
        if self.chance(local):
            s += '+' + self.clean(self.local())
        if self.chance(epoch):
            s = self.epoch() + '!' + s
        return s

    def mutate(self, s):
        """A version text related to s."""
        x = self.r.randrange(22)
        toks = re.findall(r'\d+|[._\-]|[^\d._\-]+', s) or ['']
        i = self.r.randrange(len(toks))
        if x == 0:
            return s + '.0'
        if x == 1:
            return s + self.pick(['.0.0', '.00', '-0', '_0', '.0.0.0.0'])
        if x == 2:
            return s + '.' + self.num() if '+' not in s else s + self.num()
        if x == 3:
            return s + self.pick(['.', '']) + self.tag()
        if x == 4:
            return ''.join(self.pick('._-') if t in '._-' and t else t for t in toks)
        if x == 5:
            toks[i] = '0' * self.r.randrange(1, 4) + toks[i] if toks[i][:1].isdigit() else toks[i]
            return ''.join(toks)
        if x == 6:
            if toks[i].isascii() and toks[i].isdigit() and 0 < int(toks[i]) < 2147483647:
                toks[i] = str(int(toks[i]) + self.pick([-1, 1]))
            else:
                toks[i] = self.num() if toks[i][:1].isdigit() else toks[i]
            return ''.join(toks)
        if x == 7:
            return self.recase(s)
        if x == 8:
            return s.upper() if len(s.upper()) == len(s) else s
        if x == 9:
            del toks[i]
            return ''.join(toks)
        if x == 10:
            return ''.join(toks[:i + 1])
        if x == 11:
            toks[i] = self.num() if self.chance(0.5) else self.tag()
            return ''.join(toks)
        if x == 12 and '+' not in s:
            return s + '+' + self.clean(self.local())
        if x == 13 and '!' not in s:
            return self.epoch() + '!' + s
        if x == 14:
            return s.split('+')[0]
        if x == 15:
            return s.split('!')[-1]
        if x == 16:
            toks.insert(i, self.pick(['.', '..', '-', '_', '.0.', 'a', '0', 'post', 'dev']))
            return ''.join(toks)
        if x == 17:
            toks[i] = toks[i] + self.pick(['a', 'post', 'dev', '0', 'A'])
            return ''.join(toks)
        if x == 18:
            return s + '.' + self.pick(['dev', 'post', 'a', 'rc', 'DEV', 'Post', 'postdev', 'devpost', 'xdev', 'z', 'dev0', 'post1', 'dev1', 'post0'])
        if x == 19:
            return ''.join(toks[:i]) + self.pick(['dev', 'post', 'a', 'rc', '0', '1', 'z']) + ''.join(toks[i + 1:])
        if x == 20:
            k = self.r.randrange(len(s) + 1)
            return s[:k] + self.pick(list('0129adpZ._-') + ['é', '中']) + s[k:]
        k = self.r.randrange(len(s) + 1)
        return s[:k] + s[k + 1:]

    def ok(self, s):
        """Accepted, by the generator's own reading, and within the number range."""
        p = s.split('!')
        if len(p) > 2:
            return False
        if len(p) == 2 and (not re.fullmatch(r'[+-]?[0-9]+', p[0]) or not -32768 <= int(p[0]) <= 32767):
            return False
        if p[-1].count('+') > 1:
            return False
        return all(int(n) <= 2147483647 for n in re.findall(r'[0-9]+', re.sub(r'\d*[^\x00-\x7f]\d*', 'x', p[-1])) if len(n) < 4000)

    def ver_ok(self, **kw):
        while True:
            s = self.version(**kw)
            if self.ok(s):
                return s

    def mutant(self, s, tries=20):
        for _ in range(tries):
            t = self.mutate(s)
            if self.ok(t):
                return t
        return s

    def pool(self, n, base=None):
        """n different accepted texts, most of them near relatives."""
        out = [base if base is not None else self.ver_ok()]
        guard = 0
        while len(out) < n and guard < 400:
            guard += 1
            x = self.r.random()
            if x < 0.55:
                t = self.mutant(self.pick(out))
            elif x < 0.8:
                t = self.mutant(out[0])
            elif x < 0.9:
                t = self.mutant(self.mutant(out[0]))
            else:
                t = self.ver_ok()
            if t not in out:
                out.append(t)
        self.r.shuffle(out)
        return out

    SIZES = [5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 23, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 49, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]

    def longsize(self, cap=300):
        near = [n for n in self.dlens if n <= cap]
        return self.pick(near) if near and self.chance(0.25) else self.pick([n for n in self.SIZES if n <= cap])

    def longs(self, k, kind=None, cap=300):
        """k accepted texts that agree in a long front and differ only behind it."""
        kind = kind or self.pick(['tag', 'tag', 'tag', 'local', 'local', 'comps', 'comps', 'zeros', 'seps', 'epoch', 'tagcase', 'mixed'])
        n = self.longsize(cap)
        low = lambda m: ''.join(self.pick('abcdefghijklmnqrstuwxyz') for _ in range(m))
        pre = self.pick(['', '1.', '1.2-', '1', '0.', '2!1.'])
        ends = ['', 'a', 'b', 'A', 'z', 'aa', 'ab', 'zz', 'B', 'é', 'dev', 'post', '.1', '.0', '1', '2', '.a', 'x.1']
        if kind in ('tag', 'tagcase', 'mixed'):
            w = low(n)
            if kind == 'mixed':
                i = self.r.randrange(n)
                w = w[:i] + self.pick(['é', 'ж', '中', 'ß', 'Σ', '😀']) + w[i + 1:]
            f = [w] if kind != 'tagcase' else [w, w.upper(), w.capitalize(), self.recase(w)]
            out = [pre + self.pick(f) + e for e in ends + [low(1), low(2)]]
        elif kind == 'local':
            w = self.pick([low(n), '.'.join(low(1) for _ in range(max(1, n // 2))), str(10 ** n)[:n]])
            out = [pre + '7+' + w + e for e in ends + ['.', '-', '_']] + [pre + '7+' + w[:-1], pre + '7']
        elif kind == 'comps':
            w = '.'.join(self.pick(['0', '1', '7', 'a', '12']) for _ in range(n))
            out = [w + e for e in ['', '.1', '.0', '.2', '.a', '.A', '.b', '.dev', '.post', '.0.0', '.0.1', '+l', '+L', '.1.1', '.10', 'rc', '.0a']]
        elif kind == 'zeros':
            out = [pre + '0' * n + e for e in ['', '1', '2', '10', '.1', '2147483647', '1a', 'a', '.0', '1.0']] + [pre + e for e in ('0', '1', '2', '10')]
        elif kind == 'seps':
            d = self.pick('._-') * n
            out = ['1' + d + e for e in ['', '1', '0', 'a', '.2', '+l', '0.0']] + ['1', '1.1', '1.0', '1.a'] + [d + '1', d, d + '1+l']
        else:
            out = ['0' * n + '1!' + e for e in ['1', '2', '', '0', 'a', '+l']] + ['1!1', '1!2', '2!0', '0!9', '0' * n + '2!1', '+' + '0' * n + '1!1', '-' + '0' * n + '1!1']
        out = [t for t in dict.fromkeys(out) if self.ok(t)]
        return self.r.sample(out, min(k, len(out)))

    def longpair(self, kind=None, cap=300):
        while True:
            ts = self.longs(2, kind, cap)
            if len(ts) == 2:
                return ts

    def respell(self, s):
        """Another text for an equal version: zeros in front, separators, appended zeros, letter case."""
        if '+' in s:
            return s
        x = self.r.randrange(4)
        if x == 0:
            return re.sub(r'(?<![0-9])([0-9]+)', lambda m: '0' * self.r.randrange(3) + m.group(1), s, count=self.r.choice([1, 9])) if s.isascii() else s
        if x == 1:
            return s + self.pick(['.0', '.0.0', '-0', '_00', '.'])
        if x == 2:
            h, b, t = s.rpartition('!')
            return h + b + ''.join(self.pick('._-') if c in '._-' else c for c in t)
        return self.recase(s)

    def related(self):
        a = self.ver_ok()
        b = a
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            b = self.mutant(b)
        if self.chance(0.1):
            b = self.ver_ok()
        if self.chance(0.3):
            # a long common front
            f = '.'.join(self.num() for _ in range(self.pick([1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65] + self.dsizes[:20])))
            if '!' not in a + b:
                a, b = f + '.' + a, f + '.' + b
        return a, b

    def corpus(self):
        """Version texts of the repository's own data file."""
        if not hasattr(G, '_corpus'):
            p = os.path.join(REPO, 'core/tests/data/current_repodata.json')
            vs, deps = set(), set()
            try:
                d = json.load(open(p))
                for sec in ('packages', 'packages.conda'):
                    for r in d.get(sec, {}).values():
                        vs.add(r['version'])
                        for x in r['depends']:
                            q = x.split()
                            if len(q) > 1:
                                deps.add(q[1])
            except Exception:
                pass
            G._corpus = (sorted(v for v in vs if self.ok(v)), sorted(deps))
        return G._corpus


# ---- exhaustive small universes -------------------------------------------------------------------

def all_texts(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)


# ---- regular expressions ----------------------------------------------------------------------------

class Rx:
    """Abstract regular expressions, in the encoding of spec/Regex.tla."""
    META = set('\\.+*?()|[]{}^$')

    def __init__(self, g, alphabet='01.a+'):
        self.g = g
        self.al = alphabet

    def text(self, x):
        k = x[0]
        if k == 'lit':
            c = chr(x[1])
            return '\\' + c if c in self.META else c
        if k == 'any':
            return '.'
        if k == 'dig':
            return '\\d'
        if k == 'bol':
            return '^'
        if k == 'eol':
            return '$'
        if k == 'bad':
            return uncp(x[1])
        if k == 'cls':
            return '[' + ('^' if x[1] else '') + ''.join(chr(a) if a == b else chr(a) + '-' + chr(b) for a, b in x[2]) + ']'
        if k == 'grp':
            return '(' + self.text(x[1]) + ')'
        if k == 'cat':
            return ''.join(map(self.text, x[1]))
        if k == 'alt':
            return '|'.join(map(self.text, x[1]))
        if k == 'rep':
            m, n = x[2], x[3]
            q = '*' if (m, n) == (0, -1) else '+' if (m, n) == (1, -1) else '?' if (m, n) == (0, 1) else \
                '{%d}' % m if m == n else '{%d,}' % m if n == -1 else '{%d,%d}' % (m, n)
            return self.text(x[1]) + q

    def atom(self, d):
        g = self.g
        x = g.r.random()
        if x < 0.5:
            return ['lit', ord(g.pick(self.al))]
        if x < 0.62:
            return ['any']
        if x < 0.7:
            return ['dig']
        if x < 0.82:
            rs = []
            for _ in range(g.r.randrange(1, 3)):
                a, b = sorted(g.pick('0123456789abcxyzAZ') for _ in 'ab')
                if a.isdigit() != b.isdigit() or a.islower() != b.islower():
                    b = a
                rs.append([ord(a), ord(b)] if g.chance(0.7) else [ord(a), ord(a)])
            return ['cls', g.chance(0.3), rs]
        if d <= 0:
            return ['lit', ord(g.pick(self.al))]
        return ['grp', self.expr(d - 1)]

    def piece(self, d):
        g = self.g
        a = self.atom(d)
        if g.chance(0.35):
            m, n = g.pick([(0, -1), (0, -1), (1, -1), (0, 1), (2, 2), (1, 2), (0, 2), (2, -1), (0, 3)])
            return ['rep', a, m, n]
        return a

    def cat(self, d):
        return ['cat', [self.piece(d) for _ in range(self.g.r.choice([1, 1, 2, 2, 3, 4]))]]

    def expr(self, d):
        if self.g.chance(0.3):
            return ['alt', [self.cat(d) for _ in range(self.g.r.randrange(2, 4))]]
        return self.cat(d)

    def term(self, d=2):
        """An expression whose text starts with '^' and ends with '$'."""
        g = self.g
        if g.chance(0.15):
            alts = [self.cat(d) for _ in range(g.r.randrange(2, 4))]
            alts[0] = ['cat', [['bol']] + alts[0][1]]
            alts[-1] = ['cat', alts[-1][1] + [['eol']]]
            return ['alt', alts]
        body = self.expr(d)
        if body[0] == 'alt':
            body = ['cat', [['grp', body]]]
        return ['cat', [['bol']] + body[1] + [['eol']]]

    def near(self, lits):
        """An expression built to match a given text, sometimes spoiled."""
        g = self.g
        out = [['bol']]
        for c in lits:
            x = g.r.random()
            out.append(['any'] if x < 0.12 else ['dig'] if x < 0.3 and c in '0123456789' else
                       ['cls', False, [[48, 57]]] if x < 0.4 and c in '0123456789' else
                       ['rep', ['lit', ord(c)], 1, -1] if x < 0.5 else ['lit', ord(c)])
        if g.chance(0.3):
            out.append(['rep', ['any'], 0, -1])
        if g.chance(0.2) and len(out) > 2:
            del out[g.r.randrange(1, len(out))]
        return ['cat', out + [['eol']]]

    BAD = ['(', ')', '[', '[a', '*', '+a{', '\\q', '(?', '(?P<', 'a{2,1}', '[z-a]', '(a', 'a)', '\\', '(?<n>a', '[[:foo:]]', 'a**b(', 'x{9999999}']

    def broken(self):
        g = self.g
        return ['cat', [['bol'], ['bad', cp(g.pick(['(', ')', '[a', '(?', '\\q', 'a{2,1}', '[z-a]', '(a', 'a)', '((a)', '[', '\\8', '(?P<1>a)', '(?z)']))],
                        ['eol']]]
