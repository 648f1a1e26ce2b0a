"""Package index documents: abstract JSON values (encoding of spec/Index.tla) and their presentations."""
import copy, json, os, re
from gen import cp, uncp

S = lambda s: ['str', cp(s)]
I = lambda n: ['int', n < 0, cp(str(abs(n)).lstrip('0') or '0')]
A = lambda xs: ['arr', xs]
O = lambda kv: ['obj', [[cp(k), v] for k, v in kv]]
FIELDS = ['build', 'build_number', 'depends', 'md5', 'name', 'sha256', 'size', 'timestamp', 'version']
ROOT = ['info', 'packages', 'packages.conda', 'repodata_version', 'removed']
U = {'build_number': 65535, 'size': 2 ** 64 - 1, 'timestamp': 2 ** 64 - 1, 'repodata_version': 255}


class Writer:
    """Writes an abstract value as JSON text; style 0 is plain."""

    def __init__(self, g=None, ws=0.0, esc=0.0):
        self.g, self.wsp, self.esc = g, ws, esc

    def ws(self):
        if self.g is None or not self.g.chance(self.wsp):
            return ''
        return ''.join(self.g.pick([' ', '\n', '\t', '\r', '  ']) for _ in range(self.g.r.randrange(1, 3)))

    def string(self, s):
        out = []
        for c in s:
            o = ord(c)
            if self.g is not None and self.g.chance(self.esc):
                if o > 0xffff:
                    o -= 0x10000
                    u = '\\u%04x\\u%04x' % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff))
                    out.append(u if self.g.chance(0.5) else u.upper().replace('\\U', '\\u'))
                elif c in '"\\/\b\f\n\r\t' and self.g.chance(0.5):
                    out.append({'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}[c])
                else:
                    out.append(('\\u%04x' if self.g.chance(0.5) else '\\u%04X') % o)
            elif c in '"\\':
                out.append('\\' + c)
            elif o < 32:
                out.append('\\u%04x' % o)
            else:
                out.append(c)
        return '"' + ''.join(out) + '"'

    def write(self, v):
        k = v[0]
        w = self.ws
        if k == 'obj':
            return '{' + w() + (w() + ',' + w()).join(self.string(uncp(a)) + w() + ':' + w() + self.write(b) for a, b in v[1]) + w() + '}'
        if k == 'arr':
            return '[' + w() + (w() + ',' + w()).join(self.write(x) for x in v[1]) + w() + ']'
        if k == 'str':
            return self.string(uncp(v[1]))
        if k == 'int':
            return ('-' if v[1] else '') + uncp(v[2])
        if k == 'frac':
            return uncp(v[1])
        if k == 'deep':
            s = (uncp(v[2]) * v[1])[:v[1]]
            return ''.join(w() + ('[' if c == '[' else '{"a":') for c in s) + 'null' + ''.join(']' if c == '[' else '}' for c in s[::-1])
        if k == 'bool':
            return 'true' if v[1] else 'false'
        return 'null'


class D:
    def __init__(self, g):
        self.g = g

    ODD = ['//', ' // ', '#', ' #', '/*', '*/', '--', ';', '<!--', '\\n', '\\u0041', '\\"', "'", '"', '{', '}', '[', ']', ':', ',', '","', '":', '},', '\r\n', '\n', '\t', '  ', '%20', '&amp;', '${x}', '%s', 'NaN',
           '\u00a0', '\u200b', '\u2028', '\u0000', '\u007f', '\u0085', 'e\u0301', 'İ', 'ß', '😀', '$', '~', '`', '|', '\\', '\\\\', '0x1f', '1e5', '+', '=', '@', '^', '*', '?', '!']

    def word(self):
        g = self.g
        if g.chance(0.3):
            # composed: a plain word around something odd
            w = ''.join(g.pick('abz019._-') for _ in range(g.r.choice([0, 1, 3, 8]) if g.chance(0.93) else g.longsize()))
            o = ''.join(g.pick(self.ODD + g.strs[:60]) for _ in range(g.r.choice([1, 1, 2]))) if g.chance(0.7) else \
                ''.join(g.pick('\\\\\\\\"/nutrbf04x{}[],: ') for _ in range(g.r.choice([2, 2, 3, 5])))
            i = g.r.randrange(len(w) + 1)
            return w[:i] + o + w[i:]
        return g.pick(['python', 'numpy', 'lib', 'a', '', 'py37_0', 'h1de35cc_0', 'é', '中文', 'x y', '"q"', 'back\\slash', 'tab\there', 'nl\n', '😀', '\x7f', '\u2028', '/', '\x00', '\ufeffz',
                       'null', '1', '1.0', 'noarch', 'linux-64', 'osx-64', 'python >=3.7,<3.8.0a0', 'A' * 70, 'AbCdEf0123456789' * 2, 'DEADbeef' * 8, 'md5', 'version', ' lead', 'trail ', g.word()])

    def num(self, f):
        g = self.g
        m = U[f]
        x = g.r.random()
        if x < 0.35:
            return g.r.randrange(0, 10)
        if x < 0.6:
            return min(m, g.pick([0, 1, 127, 128, 254, 255, 256, 999, 32767, 32768, 65534, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1,
                                  2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]))
        return g.r.randrange(0, m + 1) if x < 0.8 else g.r.randrange(0, min(m, 2 ** 40) + 1)

    def record(self, small=False):
        g = self.g
        v = g.ver_ok() if g.chance(0.7) or not g.corpus()[0] else g.pick(g.corpus()[0])
        if g.chance(0.08):
            v = g.pick(['', '1"2', '1\\2', '1\t2', '1 2', 'é', '1.\u20280', '😀', '1/2', '.', '1+', '\x001'])
        deps = [g.pick([self.word(), 'python >=3', 'a', 'b 1.*', 'c']) for _ in range(g.r.choice([0, 1, 1, 2, 3, 5]))]
        kv = {'build': S(self.word()), 'build_number': I(self.num('build_number')), 'depends': A([S(d) for d in deps]), 'md5': S(self.word()), 'name': S(self.word()),
              'sha256': S(self.word()), 'size': I(self.num('size')), 'timestamp': I(self.num('timestamp')), 'version': S(v)}
        ks = list(FIELDS)
        if g.chance(0.5):
            g.r.shuffle(ks)
        out = [[cp(k), kv[k]] for k in ks]
        if g.chance(0.4):
            for _ in range(g.r.randrange(1, 4)):
                out.insert(g.r.randrange(len(out) + 1), [cp(self.unknown()), self.value(2)])
        return ['obj', out]

    def unknown(self):
        return self.g.pick(['license', 'license_family', 'subdir', 'arch', 'platform', 'constrains', 'track_features', 'Version', 'VERSION', 'versions', 'ver', 'build_string', 'buildNumber',
                            'build number', 'depend', 'depends ', ' name', 'md', 'sha', 'sha1', 'Size', 'timestamps', 'noarch', '', 'é', '"', 'packages', 'packages.tar', 'remove', 'repodata',
                            'repodata_version ', 'info2', 'packages_conda', 'packagesConda', 'packages-conda', 'packages.Conda', 'Packages', 'PACKAGES', 'repodata-version', 'repodataVersion', 'Removed', 'Info', 'hash', 'sha-256',
                            'sha_256', 'SHA256', 'sha512', 'MD5', 'md5sum', 'checksum', 'build-number', 'buildnumber', 'build_no', 'Build', 'dependencies', 'requires', 'Depends', 'run_constrained', 'Name', 'package', 'pkg',
                            'filesize', 'length', 'time', 'Timestamp', 'app_type', 'features', 'legacy_bz2_md5', 'signatures', 'repodata_record', 'base_url', 'comment', '//', '#', '_', '$schema', '__proto__', '0', 'removed_', 'record', 'date', 'fn', 'url', 'x'])

    def big(self):
        """A value of an unknown key that is large in one way."""
        g = self.g
        x = g.r.randrange(6)
        n = g.pick([20, 60, 127, 128, 129, 300]) if x < 3 else g.longsize(300)
        if x == 0:
            return ['deep', g.pick([n, n, 1000, 20000]), cp(g.pick(['[', '{', '[{', '{[[']))]
        if x == 1:
            return A([I(i) for i in range(n)])
        if x == 2:
            return ['obj', [[cp(g.pick(FIELDS + ROOT + ['k%d' % i])), self.value(0)] for i in range(n)]]
        if x == 3:
            return S(''.join(g.pick('ab é中😀"\\\n') for _ in range(n)))
        if x == 4:
            return ['int', g.chance(0.5), cp(g.pick('123456789') + '0' * n)]
        return ['frac', cp(g.pick(['1e400', '-1e400', '1e-400', '0.' + '0' * n + '1', '1' * n + '.5', '123E+99', '-0.0', '1e99999999999']))]

    def wide(self, entries=0, depends=0, removed=0, unknown=0):
        """A document with many of something."""
        g = self.g
        doc = self.doc(1)
        while not all(len(v[1]) >= 1 and all(len(v[1]) == len({tuple(e[0]) for e in v[1]}) for _ in '1') for k, v in doc[1] if uncp(k) in ('packages', 'packages.conda')):
            doc = self.doc(1)
        for k, v in doc[1]:
            n = uncp(k)
            if n in ('packages', 'packages.conda'):
                one = v[1][0][1]
                for i in range(entries):
                    r = copy.deepcopy(one)
                    r[1] = [e for e in r[1] if uncp(e[0]) in FIELDS]
                    for e in r[1]:
                        f = uncp(e[0])
                        if f in U:
                            e[1] = I((i * 7919) % (U[f] + 1))
                        elif f == 'version':
                            e[1] = S('%d.%d' % (i // 7, i % 7) + g.pick(['', 'a', '.post1', '+l']))
                        elif f == 'depends':
                            e[1] = A([S('d%d' % i)] * (i % 3))
                        else:
                            e[1] = S('%s%d' % (f[0], i))
                    v[1].append([cp('p-%d-0.%s' % (i, g.pick(['tar.bz2', 'conda']))), r])
                for e in v[1][:1]:
                    for x in e[1][1]:
                        if uncp(x[0]) == 'depends':
                            x[1][1].extend(S('dep%d >=%d' % (i, i % 9)) for i in range(depends))
            elif n == 'removed':
                v[1].extend(S('r-%d.tar.bz2' % i) for i in range(removed))
        for i in range(unknown):
            doc[1].insert(g.r.randrange(len(doc[1]) + 1), [cp('x-%d' % i), self.value(1)])
        return doc

    def value(self, d):
        g = self.g
        if d == 2 and g.chance(0.04):
            return self.big()
        x = g.r.randrange(7 if d > 0 else 5)
        if x == 0:
            return S(self.word())
        if x == 1:
            return ['int', g.chance(0.4), cp(str(g.pick([1, 2, 65536, 2 ** 63, 2 ** 64 - 1])))]
        if x == 2:
            return ['bool', g.chance(0.5)]
        if x == 3:
            return ['null']
        if x == 4:
            return ['frac', cp(g.pick(['1.5', '0.0', '1e3', '1E+2', '-2.5e-3', '1.0']))]
        if x == 5:
            return A([self.value(d - 1) for _ in range(g.r.randrange(3))])
        return ['obj', [[cp(self.unknown()), self.value(d - 1)] for _ in range(g.r.randrange(3))]]

    def section(self, n):
        g = self.g
        out = []
        for i in range(n):
            fn = g.pick(['p-%d-0.tar.bz2' % i, 'a%d' % i, self.word() + str(i), g.word()])
            out.append([cp(fn), self.record()])
        if out and g.chance(0.25):
            # the same name again
            out.insert(g.r.randrange(len(out) + 1), [g.pick(out)[0], self.record()])
        return ['obj', out]

    def doc(self, n=None):
        g = self.g
        info = [[cp('subdir'), S(self.word())]]
        if g.chance(0.2):
            info.insert(g.r.randrange(2), [cp('other'), self.value(1)])
        sz = lambda: n if n is not None else g.r.choice([0, 0, 1, 1, 2, 3, 4])
        a, b = self.section(sz()), self.section(sz())
        if g.chance(0.3) and a[1]:
            b[1].append([g.pick(a[1])[0], self.record()])       # the same name in the other section
        kv = {'info': ['obj', info], 'packages': a, 'packages.conda': b, 'repodata_version': I(self.num('repodata_version')),
              'removed': A([S(self.word()) for _ in range(g.r.choice([0, 0, 1, 2, 3]))])}
        if g.chance(0.6):
            self.link(kv)
        ks = list(ROOT)
        if g.chance(0.5):
            g.r.shuffle(ks)
        out = [[cp(k), kv[k]] for k in ks]
        if g.chance(0.3):
            out.insert(g.r.randrange(len(out) + 1), [cp(self.unknown() + '_'), self.value(2)])
        return ['obj', out]

    def link(self, kv):
        """Values that occur in several places of a document, which means nothing."""
        g = self.g
        secs = [kv['packages'][1], kv['packages.conda'][1]]
        recs = [(sec, e) for sec in secs for e in sec]
        field = lambda e, f: next(x for x in e[1][1] if uncp(x[0]) == f)
        texts = ['build', 'md5', 'name', 'sha256']
        for _ in range(g.r.choice([1, 2, 3])):
            x = g.r.randrange(9)
            if x == 0 or not recs:
                known = [S(uncp(e[0])) for _, e in recs] + [field(e, 'name')[1] for _, e in recs] + [kv['info'][1][0][1] if kv['info'][1][0][1][0] == 'str' else S('x')]
                kv['removed'][1].append(g.pick(known))
                continue
            sec, e = g.pick(recs)
            sec2, e2 = g.pick(recs)
            if x == 1:
                f, h = g.pick(texts), g.pick(texts)
                field(e, f)[1] = field(e2, h)[1]
            elif x == 2:
                field(e, 'depends')[1][1].append(g.pick([field(e2, 'name')[1], S(uncp(e2[0])), field(e, 'name')[1]]))
            elif x == 3:
                field(e, 'version')[1] = field(e2, 'version')[1]
            elif x == 4:
                # the same record under another name
                g.pick(secs).append([cp(g.pick(['a', 'p-1', self.word()]) + '-copy'), copy.deepcopy(e[1])])
            elif x == 5:
                # an archive in both formats
                n = g.pick(['python-3.7-0', 'a-1-0', self.word()])
                if all(uncp(k[0]) not in (n + '.tar.bz2', n + '.conda') for sec in secs for k in sec):
                    secs[0].append([cp(n + '.tar.bz2'), copy.deepcopy(e[1])])
                    secs[1].append([cp(n + '.conda'), copy.deepcopy(e2[1])])
            elif x == 6:
                for f in ('name', 'version', 'build'):
                    field(e, f)[1] = field(e2, f)[1]
            elif x == 7:
                field(e, g.pick(['size', 'timestamp']))[1] = field(e2, g.pick(['size', 'timestamp', 'build_number']))[1]
                field(e, g.pick(texts))[1] = S('')
            else:
                e[0] = cp(g.pick([uncp(field(e, 'name')[1][1]), uncp(e[0]).upper(), uncp(e[0]) + '.conda', uncp(e[0]) + ' '])) if sec.count(e) == 1 else e[0]

    # -- faults
    def fault(self, d):
        """One defect somewhere in a document (or, now and then, a change that is no defect)."""
        g = self.g
        d = copy.deepcopy(d)
        recs = [e[1] for k, v in d[1] if uncp(k) in ('packages', 'packages.conda') for e in v[1]]
        where = g.pick(['rec', 'rec', 'rec', 'root', 'info']) if recs else g.pick(['root', 'info'])
        if where == 'rec':
            o = g.pick(recs)
            f = g.pick(FIELDS)
        elif where == 'root':
            o = d
            f = g.pick(ROOT)
        else:
            o = next(v for k, v in d[1] if uncp(k) == 'info')
            f = 'subdir'
        i = next(i for i, (k, v) in enumerate(o[1]) if uncp(k) == f)
        x = g.r.randrange(9)
        old = o[1][i][1]
        if x == 0:
            del o[1][i]
        elif x == 1:
            o[1].insert(g.r.randrange(len(o[1]) + 1), [cp(f), copy.deepcopy(old) if g.chance(0.6) else self.value(1)])
        elif x == 2:
            o[1][i][1] = ['null']
        elif x == 3 and f in U:
            o[1][i][1] = g.pick([I(U[f] + 1), I(U[f] + 2), I(-1), I(10 ** 20), ['frac', cp('1.0')], ['frac', cp('1e2')], S('1'), ['bool', True], I(U[f] * 2), I(2 ** 64), I(10 ** 30),
                                 I(-U[f]), I(U[f] + 256), ['int', False, cp('1' + '0' * 25)]])
        elif x == 4 and f == 'version':
            o[1][i][1] = S(g.pick(['1!2!3', 'a!1', '!1', '1+2+3', '99999!1', '-!1', '1.5!2', ' 1!2', '1!+2+3', '+', '', '1!', '+1', '1+', '32768!1', '-32769!1']))
        elif x == 5 and f in ('depends', 'removed'):
            o[1][i][1] = g.pick([A([S('a'), ['null']]), A([I(1)]), S('a'), ['obj', []], A([A([S('a')])]), A([S('a'), ['bool', True], S('b')]), ['null'], A([['null']])])
        elif x == 6 and f in ('info', 'packages', 'packages.conda'):
            o[1][i][1] = g.pick([S('x'), I(3), ['null'], ['bool', False], ['obj', []]] + ([['arr', []], ['arr', [I(1)]]] if f != 'info' else []) +
                                ([['obj', [[cp('k'), x]]] for x in (['null'], I(1), S('r'), ['obj', []])] if f != 'info' else []))
        elif x == 7:
            o[1][i][0] = cp(g.pick([f.upper(), f + ' ', ' ' + f, f[:-1], f + 's', f.replace('_', '-'), f.replace('.', '_'), f.capitalize()]))
        else:
            v = self.value(1)
            while v[0] == 'obj' and f in ('packages', 'packages.conda') or (v[0] == 'arr' and f == 'info'):
                v = self.value(1)
            o[1][i][1] = v
        return d

    def twin(self, d, keepdup=False):
        """Another document with the same meaning: other order, other unknown keys, overridden duplicates.
        keepdup: overridden entries may be defective, so they stay."""
        g = self.g
        d = copy.deepcopy(d)

        def extras(o, known):
            o[1] = [e for e in o[1] if uncp(e[0]) in known or g.chance(0.5)]
            for _ in range(g.r.choice([0, 0, 1, 2])):
                u = self.unknown()
                if u not in known:
                    o[1].insert(g.r.randrange(len(o[1]) + 1), [cp(u), self.value(2)])
            g.r.shuffle(o[1])
        for k, v in d[1]:
            n = uncp(k)
            if n in ('packages', 'packages.conda') and v[0] == 'obj':
                last = {}
                for key, r in v[1]:
                    last[tuple(key)] = r
                ent = [[list(key), r] for key, r in last.items()] if not keepdup else list(v[1])
                g.r.shuffle(ent)
                if keepdup:
                    left = {}
                    for key, r in v[1]:
                        left.setdefault(tuple(key), []).append(r)
                    ent = [[key, left[tuple(key)].pop(0)] for key, _ in ent]
                for e in ent:
                    if e[1][0] == 'obj':
                        extras(e[1], FIELDS)
                if ent and g.chance(0.3):
                    ent.insert(0, [g.pick(ent)[0], self.record()])     # overridden by the later one
                v[1] = ent
            elif n == 'info' and v[0] == 'obj':
                extras(v, ['subdir'])
        extras(d, ROOT)
        return d
