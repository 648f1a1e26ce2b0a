"""What each check runs: the scenarios sent to the code, and the models checked exhaustively."""
import copy, itertools, json, os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import gen, gen_terms, gen_index, infra
from gen import G, Rx, cp, uncp, all_texts, NUMS, TAGS, UTAGS
from gen_terms import T, E, hand, stem_ok, terms_of, tokens, WS, FAKEWS
from gen_index import D, Writer

BANGS = "!+1-a."


def dedup(cmds):
    seen, out = set(), []
    for c in cmds:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


# ---- versions --------------------------------------------------------------------------------------

def epoch_texts(g):
    out = []
    base = ['0', '1', '9', '10', '99', '127', '128', '255', '256', '999', '9999', '10000', '32766', '32767', '32768', '32769', '65535', '65536', '65537', '99999', '100000',
            '2147483647', '2147483648', '4294967296', '4294967297', '9223372036854775808', '18446744073709551616', '340282366920938463463374607431768211456']
    base += [n for n in g.dnums]
    for b in base:
        for s in ('', '+', '-', '--', '+-', '-+', '++'):
            for z in ('', '0', '000', '0' * 30):
                out.append(s + z + b)
    out += ['', '+', '-', ' 1', '1 ', ' ', '1.0', '1.', '.1', '1e3', '0x1', '1_0', '1,0', 'a', '1a', 'a1', '١', '５', '1５', '²', '½', '−1', '﹣1', '1\n', '\t1', '1\u00a0', '1\u200b', '1-', '1+', '0-0',
            '00', '-0', '+0', '-00032768', '-00032769', '+00032767', '+00032768', '1.5', 'inf', 'NaN', 'true', '*', '1*', '=1', '==1', '1+1', '+1+1', '-32768', '-32769']
    return out


def gen_c01(g):
    ok = lambda s: {'c': 'ver', 't': cp(s), 'w': 'ok'}
    cmds = []
    for e in epoch_texts(g):
        cmds.append(ok(e + '!' + g.pick(['1', '', '1.2', '1+2', '+', 'a', '.'])))
    for _ in range(g.n(2500)):
        s = g.version(epoch=0.4, local=0.4)
        if g.chance(0.5):
            i = g.r.randrange(len(s) + 1)
            s = s[:i] + g.pick(['!', '+', '!', '+', '-', ' ', '!!', '++', '!+', '+!', 'é', '\x00', '1', '.']) + s[i:]
        cmds.append(ok(s))
    for _ in range(g.n(1500)):
        k = g.r.choice([0, 1, 2, 3, 5, 8, 13, 40])
        cmds.append(ok(''.join(rnd_char(g) for _ in range(k))))
    for c in list(range(0, 0x250)) + [0x2000 + i for i in range(0x70)] + [0x660 + i for i in range(10)] + [ord(x) for u in UTAGS for x in u]:
        cmds.append(ok(g.pick(['', '1', 'a', '1.', '0!']) + chr(c) + g.pick(['', '1', '.1', 'b', '+1', '!1'])))
    for k in [50, 100, 255, 256, 257, 1000, 5000, 20000] + g.dlens[:12]:
        for p in ('1', 'a', '.', '1.', 'a1', '1a.', '0', '9', 'é', '-', '中1'):
            cmds.append(ok((p * k)[:20000]))
        cmds.append(ok('1!' + '1.' * k + '+' + 'l' * k))
        cmds.append(ok('1+' + '+' * (k % 7) + 'x' * k))
    for _ in range(g.n(150)):
        for t in g.longs(3):
            x = g.r.random()
            i = g.r.randrange(len(t) + 1)
            cmds.append(ok(t if x < 0.3 else t[:i] + g.pick(['!', '+', '!', '+', '-', ' ', 'é', '\x00', '.', '*']) + t[i:] if x < 0.8 else t + g.pick(['!', '+', '!1', '+1', '++'])))
    for s in g.corpus()[0]:
        cmds.append(ok(s))
    # beyond what two bytes count
    for s in ('1.' * 33000 + '2', '7' * 65536, '1!' + 'a' * 65530 + '+' + 'b' * 9, '1+' + '0' * 66000, '1' * 66000 + '!', '1.' * 33000 + '!2', '1+' + '.' * 66000 + '+'):
        cmds.append(ok(s))
    return cmds


def rnd_char(g):
    x = g.r.random()
    if x < 0.6:
        return g.pick('0123456789._-+!aAzZ')
    if x < 0.8:
        return chr(g.r.randrange(32, 127))
    while True:
        c = g.r.randrange(0x110000) if g.chance(0.4) else g.r.randrange(0x600) if g.chance(0.6) else g.r.randrange(0x3000)
        if not 0xd800 <= c < 0xe000:
            return chr(c)


def in_model_digits(s):
    return True


def gen_c02(g):
    full = lambda s: {'c': 'ver', 't': cp(s)}
    cmds = []
    for e in epoch_texts(g):
        if re.fullmatch(r'[+-]?0*[0-9]{1,5}', e) and -32768 <= int(e) <= 32767:
            cmds.append(full(e + '!' + g.version(epoch=0)))
    for n in NUMS + g.dnums + [str(2 ** 31 + d) for d in range(-3, 4)] + [str(2 ** 32 + d) for d in (-1, 0, 1)] + [str(2 ** 63), str(2 ** 64), '9' * 10, '9' * 9, '9' * 30, '1' + '0' * 9, '3000000000',
                                                                                                                     '2147483650', '2147483639', '10000000000']:
        for z in ('', '0', '00000000000'):
            cmds.append(full(g.pick(['', '1.', 'a', '1!']) + z + n + g.pick(['', '.1', 'a', '+1'])))
    for _ in range(g.n(2600)):
        s = g.version(epoch=0.25, local=0.3)
        while s.split('!')[-1].count('+') > 1 or s.count('!') > 1:
            s = g.version(epoch=0.25, local=0.3)
        cmds.append(full(s))
    for _ in range(g.n(700)):
        k = g.r.choice([1, 2, 3, 5, 8, 13])
        cmds.append(full(''.join(rnd_char(g) for _ in range(k)).replace('!', '1').replace('+', '')))
    for u in UTAGS + TAGS:
        u = u.replace('!', '').replace('+', '')
        cmds.append(full(g.pick(['', '1', '1.', '2.']) + u + g.pick(['', '1', '.1', u])))
        cmds.append(full('1+' + g.pick(['', 'a', '.']) + u + g.pick(['', '.1', '-'])))
    for k in [64, 65, 127, 128, 129, 255, 256, 257, 600] + g.dlens[:12]:
        for p in ('1', 'a', '1.', 'a1', '1a.', '.', '0', '中1'):
            cmds.append(full((p * k)[:900]))
        cmds.append(full('1+' + 'l.' * min(k, 300)))
    for _ in range(g.n(90)):
        for t in g.longs(2):
            cmds.append(full(t))
    for s in g.corpus()[0]:
        cmds.append(full(s))
    # parsers supplied by the caller
    for _ in range(g.n(300)):
        parts = []
        for _ in range(g.r.choice([0, 1, 1, 2, 3, 5, 9]) if g.chance(0.93) else g.longsize(130)):
            x = g.r.randrange(5)
            parts.append([['E', [g.r.randrange(-32768, 32768)]], ['I', cp(str(g.r.randrange(0, 2 ** 31)).lstrip('0'))], ['L', cp(g.clean(g.local()))],
                          ['T', cp(''.join(c for c in g.word()) or 'x')], ['Z', []]][x])
        cmds.append({'c': 'custom', 't': cp(g.version() if g.chance(0.7) else g.pick(['1!2!3', '', '1+2+3', 'x!1'])), 'parts': parts, 'err': g.r.randrange(1, 7) if g.chance(0.4) else 0})
    return cmds


def pair(a, b, w):
    return {'c': 'pair', 'a': cp(a), 'b': cp(b), 'w': w}


def odd_ok(g):
    """Accepted texts with strange parts (also numbers that are too large)."""
    x = g.r.random()
    if x < 0.5:
        s = g.version(epoch=0.1)
        i = g.r.randrange(len(s) + 1)
        s = s[:i] + g.pick(['4294967296', '2147483648', '9' * 25, '٣', '½', '..', '-', '_', '*', ' ', 'é', '\x00', '0' * 12]) + s[i:]
    else:
        s = ''.join(rnd_char(g) for _ in range(g.r.choice([0, 1, 2, 3, 6, 12])))
    p = s.split('!')
    if len(p) > 2 or (len(p) == 2 and not (re.fullmatch(r'[+-]?[0-9]+', p[0]) and -32768 <= int(p[0]) <= 32767)) or p[-1].count('+') > 1:
        return s.replace('!', '.').replace('+', '-')
    return s


CORE = ['', '.', '0', '00', '1', '1.0', '1.1', '1.10', '1.2', '01.1', '1-1', '1_1', '1.1.0', '1.1.0.0', 'a', 'A', '1a', '1.a', '1.a1', '1a1', '1.0a1', '1.dev', '1.0dev', '1.dev1', '1.post', '1.post1',
        '1post', '1.0post', '1.postdev', '1.devpost', '1.rc', '1.z', '0a', '0.0', '0.dev', '0.post', '1+', '1+0', '1+1', '1+a', '1+A', '1.0+a', '1.1+a', '1.+a', '+a', '+', '1!0', '0!1', '-1!1', '0!', '1!',
        '1!a', '0!a', '0!dev', '0!post', 'dev', 'post', '_', '-', '1.2147483647', '1.2147483648', '1.ß', '1.ss', '1.é', '1.É', '1.poſt', '١', '1.٣', '1..1', '.1', '1.', '1.0.a', '1.a.0', '1.0.0.a', 'Z', '~',
        '2', '10', '9', '0+a', '0.0+a', 'a+a', '1.post+a', '1a+b', '1!+a']


def gen_c03(g):
    cmds = [pair(a, b, 'cmp rel') for a, b in itertools.combinations_with_replacement(CORE, 2)]
    for _ in range(g.n(2200)):
        a, b = g.related()
        cmds.append(pair(a, b, 'cmp rel'))
    for _ in range(g.n(600)):
        cmds.append(pair(odd_ok(g), odd_ok(g), 'cmp rel'))
    for _ in range(g.n(300)):
        a = odd_ok(g)
        b = g.mutate(a)
        cmds.append(pair(a, b, 'cmp rel'))
    for _ in range(g.n(220)):
        a, b = g.longpair()
        cmds.append(pair(a, b, 'cmp rel'))
    for k in [60, 130, 260] + [n for n in g.dsizes if n > 8][:10]:
        f = '.'.join('1' for _ in range(k))
        for x, y in (('', '.0'), ('.1', '.2'), ('.a', '.A'), ('.dev', ''), ('+a', '+b'), ('.post', '.post1')):
            cmds.append(pair(f + x, f + y, 'cmp rel'))
    return cmds


PARTS = ['0', '1', '2', 'a', 'b', 'A', 'dev', 'post', 'rc', '00', '1a', 'a1', '0a', '0post', '1dev', 'postdev', '10', 'é']


def gen_c04(g):
    cmds = [{'c': 'pool', 'ts': [cp(t) for t in CORE], 'w': 'cmp'}]
    # all versions of up to three parts from a small vocabulary, in overlapping pools
    voc = [v for k in (1, 2, 3) for v in map('.'.join, itertools.product(['0', '1', 'a', 'dev', 'post'], repeat=k))]
    voc += [v + '+l' for v in voc[:30]] + ['0!' + v for v in voc[:30]] + ['', '.', '0!', '1!', '+l', '-1!', '1+k', '1+', '0+']
    for _ in range(g.n(12)):
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in g.r.sample(voc, 45)], 'w': 'cmp'})
    for _ in range(g.n(450)):
        k = g.r.choice([8, 12, 16, 20])
        ts = g.pool(k)
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in ts], 'w': 'cmp'})
    for _ in range(g.n(60)):
        # one place varied over everything
        pre = g.release(g.r.choice([0, 1, 2, 3, 7, 8, 15, 16]) or 1, tags=0.2) + g.pick(['.', '-', '']) if g.chance(0.7) else ''
        post = g.pick(['', '', '.0', '.1', '.a', '.dev', '.post', '+l', '.0.0', '.z'])
        ts = []
        for x in g.r.sample(TAGS[:66] + UTAGS, 9) + g.r.sample(NUMS, 5) + ['', '0', '0.0', '0.a', '0.dev', '0.post', '0.1', '0+a', '+a', '+b', '+A']:
            t = pre + x + (post if '+' not in x or '+' not in post else '')
            if g.ok(t) and t not in ts:
                ts.append(t)
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in ts], 'w': 'cmp'})
    for _ in range(g.n(40)):
        ts = list(dict.fromkeys(odd_ok(g) for _ in range(14)))
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in ts], 'w': 'cmp'})
    for _ in range(g.n(70)):
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in g.longs(11)], 'w': 'cmp'})
    return cmds


def numeric(g, k=None):
    return g.release(k, tags=0)


def gen_c05(g):
    cmds = []
    # every pair of numeric versions over small numbers, up to three components
    voc = [v for k in (1, 2, 3) for v in map('.'.join, itertools.product(['0', '1', '2', '10'], repeat=k))]
    voc += [v.replace('.', g.pick('-_')) for v in voc[20:50]] + ['00', '01', '1.00', '01.0', '1.', '.1', '1..0', '0..1', '-1', '1.0.0.0.0', '1_2-3']
    for i in range(0, len(voc), 24):
        for j in range(i, len(voc), 24):
            cmds.append({'c': 'pool', 'ts': [cp(t) for t in dict.fromkeys(voc[i:i + 24] + voc[j:j + 24])], 'w': 'cmp'})
    big = list(dict.fromkeys(NUMS + g.dnums))
    for _ in range(g.n(14)):
        pre = numeric(g, g.r.randrange(1, 5)) + '.'
        cmds.append({'c': 'pool', 'ts': [cp(pre + n) for n in g.r.sample(big, min(len(big), 26))], 'w': 'cmp'})
    for _ in range(g.n(2500)):
        a = numeric(g)
        b = a
        for _ in range(g.r.choice([1, 1, 2, 3])):
            toks = re.findall(r'\d+|\D+', b)
            i = g.r.randrange(len(toks))
            x = g.r.randrange(8)
            if x == 0:
                b += g.pick(['.0', '_0', '-00', '.0.0', '.', '.0000.0.0', '..0'])
            elif x == 1:
                b = ''.join(g.pick('._-') if t in '._-' else t for t in toks)
            elif x == 2 and toks[i].isdigit():
                toks[i] = '0' * g.r.randrange(1, 25) + toks[i]
                b = ''.join(toks)
            elif x == 3 and toks[i].isdigit():
                toks[i] = str(max(0, min(2147483647, int(toks[i]) + g.pick([-1, 1, 10, -10, 256, 65536, 2 ** 24]))))
                b = ''.join(toks)
            elif x == 4 and toks[i].isdigit():
                toks[i] = g.num()
                b = ''.join(toks)
            elif x == 5:
                b += '.' + g.num()
            elif x == 6 and toks[i].isdigit() and len(toks[i]) < 9:
                toks[i] = toks[i] + g.pick('0123456789')
                b = ''.join(toks)
            elif x == 7:
                b = b[:len(b) // 2] if re.search(r'\d', b[:len(b) // 2]) else b
        if g.ok(a) and g.ok(b):
            cmds.append(pair(a, b, 'cmp'))
    for k in [8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] + g.dsizes[:20]:
        f = '.'.join(g.pick(['0', '1', '7', '12']) for _ in range(k))
        for x, y in (('.1', '.2'), ('.0', ''), ('', '.1'), ('.10', '.9'), ('.0.0.1', ''), ('', '.0.0.0.0.0'), ('.1.5', '.2.1')):
            cmds.append(pair(f + x, f + y, 'cmp'))
        cmds.append(pair('1' + '.0' * k, '1' + '.0' * k + '.1', 'cmp'))
        cmds.append(pair('1', '1' + '.0' * k, 'cmp'))
        cmds.append(pair('1', '1' + '.0' * k + '.1', 'cmp'))
        cmds.append(pair('1' + '.0' * k + '.2', '1.' + '0' * k + '.1', 'cmp'))
    # thousands of components
    for k in (1000, 1024, 2050, 4100):
        f = '.'.join(g.pick(['0', '1', '7', '12']) for _ in range(k))
        for x, y in (('.1', '.2'), ('', '.1'), ('.0.0', '')):
            cmds.append(pair(f + x, f + y, 'cmp'))
        cmds.append(pair('1', '1' + '.0' * k + '.1', 'cmp'))
    # whatever follows the first difference has no influence
    for _ in range(g.n(1100)):
        f = g.ver_ok(local=0, k=g.pick([1, 1, 2, 3, 4, 9, 17]), epoch=0.15) if g.chance(0.85) else ''
        s = g.pick('._-') if f else ''
        x, y = [g.pick([g.num(), g.tag(), g.num() + g.tag(), '0', 'dev', 'post', 'a']) for _ in 'xy']
        a, b = f + s + x, f + s + y
        tail = lambda: g.pick(['', '.0', '.1', '.dev', '.post', '.a', '+l', '.9999', '.0.0.1', '.post1', '.dev0', '.' + g.release(g.r.choice([1, 2, 5]), tags=0.4)])
        for _ in range(2):
            a2, b2 = a + tail(), b + tail()
            if all(map(g.ok, (a, b, a2, b2))):
                cmds.append({'c': 'ext', 'a': cp(a), 'b': cp(b), 'a2': cp(a2), 'b2': cp(b2)})
    # the known deviation, and its neighbourhood
    for a, b in (('1.20200101120000', '1.1'), ('1.2147483648', '1.2147483647'), ('1.2147483648', '1.0'), ('3000000000', '1'), ('1.99999999999', '1.100000000000')):
        cmds.append(pair(a, b, 'cmp'))
    return cmds


def tag_vocab(g):
    return list(dict.fromkeys([t for t in TAGS + UTAGS + g.dtags if t and not re.search(r'[!+._\-0-9]', t) and not any(c.isdigit() for c in t)]))


def gen_c06(g):
    cmds = []
    voc = tag_vocab(g)
    ascii_voc = [t for t in TAGS[:66]]
    pool = lambda ts: cmds.append({'c': 'pool', 'ts': [cp(t) for t in dict.fromkeys(ts) if g.ok(t)], 'w': 'cmp'})
    rest = ['', '0', '1', '2147483647', '0.0', '00']
    for i in range(0, len(ascii_voc), 22):
        for j in range(i, len(ascii_voc), 22):
            pool(['1.' + x for x in ascii_voc[i:i + 22] + ascii_voc[j:j + 22] + rest])
    for _ in range(g.n(40)):
        pre = g.pick(['', '1.', '1', '1.0.', '0.', '2!', 'a.', 'dev.', 'post.', 'rc1.', '1.2.3.4.5.6.7.', '0!'])
        post = g.pick(['', '', '.1', '1', '.0', '.dev', '.post', '+l', '.a'])
        ts = [pre + x + post for x in g.r.sample(voc, 14)]
        ts += [pre + g.recase(x) + post for x in g.r.sample(voc, 6)]
        ts += [pre + x + post for x in rest]
        pool(ts)
    for _ in range(g.n(2300)):
        x = g.r.random()
        t = g.tag()
        if x < 0.3:
            u = g.recase(t)
        elif x < 0.5:
            i = g.r.randrange(len(t) + 1)
            u = t[:i] + g.pick(['dev', 'post', 'DEV', 'PoSt', 'a', 'z', 'é', 'd', 'p', 's', 't', 'ſ']) + t[i:]
        elif x < 0.65:
            u = t[:-1] or 'a'
        elif x < 0.8:
            u = g.pick(['', '0', '1', '00', g.num(), '0.0', '0.' + g.tag()])
        elif x < 0.9:
            i = g.r.randrange(len(t))
            u = t[:i] + chr(min(max(ord(t[i]) + g.pick([-1, 1, 32, -32]), 58), 0xd7fe)) + t[i + 1:]
        else:
            u = g.tag()
        f = g.pick(['', '1.', '1', '1.0', '1.0.', g.release(g.r.choice([1, 2, 3, 8, 16]), tags=0.3) + g.pick(['.', '', '-'])])
        s = g.pick(['', '', '.1', '1', '.0', '.dev', '.post', '.a', '+l'])
        s2 = s if g.chance(0.7) else g.pick(['', '.1', '1', '.0', '.dev', '.post', '.a', '+l'])
        a, b = f + t + s, f + u + s2
        if g.ok(a) and g.ok(b):
            cmds.append(pair(a, b, 'cmp'))
    for _ in range(g.n(45)):
        pool(g.longs(9, g.pick(['tag', 'tagcase', 'mixed', 'tag', 'comps'])))
    # letter case never matters
    for _ in range(g.n(300)):
        a = g.ver_ok(tags=0.7, local=0)
        b = g.recase(a)
        if g.ok(a) and g.ok(b):
            cmds.append(pair(a, b, 'cmp'))
    # every letter of the folding tables, against its folding and its other case
    for c in fold_letters(g):
        ch = chr(c)
        for o in {ch.casefold(), ch.upper(), ch.lower()} - {ch}:
            cmds.append(pair('1.' + ch + g.pick(['', 'a', 'post']), '1.' + o + g.pick(['', 'a', 'POST']), 'cmp'))
    return cmds


LATER = {0x2c2f, 0x2c5f, 0xa7c0, 0xa7c1, 0xa7c7, 0xa7c8, 0xa7c9, 0xa7ca, 0xa7d0, 0xa7d1, 0xa7d6, 0xa7d7, 0xa7d8, 0xa7d9, 0xa7f5, 0xa7f6} | set(range(0x10570, 0x105bd))


def fold_letters(g):
    """Letters with case, up to Unicode 12.1 (the age of the library's tables)."""
    ls = [c for c in range(128, 0x1f000) if not 0xd800 <= c < 0xe000 and chr(c).casefold() != chr(c) and c not in LATER and not any(x.isdigit() for x in chr(c).casefold())]
    return ls if g.tier == 'thorough' else ls[:620] + g.r.sample(ls[620:], 250)


def gen_c07(g):
    cmds = []
    ep = ['-32768', '-2', '-1', '-0', '0', '+0', '00', '1', '01', '+1', '2', '9', '10', '99', '100', '127', '128', '255', '256', '32766', '32767']
    tails = ['', '0', '1', '9999', 'a', 'dev', 'post', '0+l', '2147483647', 'z.z', '.', '1.dev', '00']
    for _ in range(g.n(30)):
        ts = [g.pick(ep) + '!' + g.pick(tails) for _ in range(22)] + [g.pick(tails) for _ in range(6)]
        ts = [t for t in dict.fromkeys(ts) if g.ok(t)]
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in ts], 'w': 'cmp'})
    for _ in range(g.n(900)):
        e, f = g.epoch(), g.epoch()
        if g.chance(0.4):
            f = str(max(-32768, min(32767, int(e) + g.pick([-1, 1, 0, 256, 10, -256]))))
        v, w = g.ver_ok(epoch=0), g.ver_ok(epoch=0)
        a, b = e + '!' + v, (f + '!' if g.chance(0.75) else '') + (w if g.chance(0.6) else v)
        if g.ok(a) and g.ok(b):
            cmds.append(pair(a, b, 'cmp'))
    for _ in range(g.n(25)):
        base = g.ver_ok(epoch=0.1, local=0)
        ls = [base] + [base + '+' + g.clean(g.local()) for _ in range(16)] + [base + s for s in ('.1', '.0', '.post', '.dev', '.a', '.2147483647', '+', '.0+a', '.1+a', '.00+A')]
        ls = [t for t in dict.fromkeys(ls) if g.ok(t)]
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in ls], 'w': 'cmp'})
    for _ in range(g.n(12)):
        base = g.ver_ok(epoch=0.1, local=0) + '+' + g.pick(['', '', '', 'g', 'r', '1.', 'b'])
        ls = dict.fromkeys(base + g.serial() for _ in range(20))
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in ls if g.ok(t)], 'w': 'cmp'})
    for _ in range(g.n(1100)):
        base = g.ver_ok(epoch=0.1, local=0)
        l = g.clean(g.local()) or 'x'
        x = g.r.random()
        if x < 0.15:
            b = base
        elif x < 0.3:
            b = base + g.pick(['.', '-', '_']) + str(g.r.randrange(1, 2147483648)) + g.pick(['', '.dev', '.0', 'a', '+l'])
        elif x < 0.5:
            b = base + '+' + g.recase(l)
        elif x < 0.75:
            i = g.r.randrange(len(l) + 1)
            b = base + '+' + l[:i] + g.pick(list('09aAzZ._-') + ['é', '10', '中']) + l[i + g.r.randrange(2):]
        elif x < 0.85:
            b = base + '+' + l[:g.r.randrange(len(l) + 1)]
        else:
            b = base + '+' + g.clean(g.local())
        a = base + '+' + l
        if g.ok(a) and g.ok(b):
            cmds.append(pair(a, b, 'cmp'))
    return cmds + gen_c07_long(g)


def gen_c07_long(g):
    return [{'c': 'pool', 'ts': [cp(t) for t in g.longs(10, g.pick(['local', 'local', 'epoch', 'zeros']))], 'w': 'cmp'} for _ in range(g.n(60))]


def gen_c08(g):
    cmds = [pair(a, b, 'cmp sw ops') for a, b in itertools.combinations_with_replacement(CORE[:44], 2)]
    for _ in range(g.n(1100)):
        a, b = g.related()
        if g.chance(0.3):
            b = a + g.pick(['.', '']) + g.pick([g.num(), g.tag(), ''])
        if g.ok(b):
            cmds.append(pair(a, b, 'cmp sw ops'))
    for _ in range(g.n(200)):
        cmds.append(pair(odd_ok(g), odd_ok(g), 'cmp sw ops'))
    for _ in range(g.n(200)):
        a, b = g.longpair() if g.chance(0.7) else (lambda x: (x, g.respell(x)))(g.ver_ok())
        if g.ok(b):
            cmds.append(pair(a, b, 'cmp sw ops'))
    return cmds


def gen_c09(g):
    cmds = [{'c': 'op', 'o': o} for o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'StartsWith', 'NotStartsWith', 'Compatible', 'Incompatible')]
    rd = lambda s: cmds.append({'c': 'opread', 't': cp(s)})
    words = ['==', '!=', '<', '<=', '>', '>=', '=', '!=startswith', '~=', '!~=', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'startswith', 'notstartswith', 'compatible', 'incompatible']
    near = ['===', '!', '~', '=<', '=>', '<>', '><', '<<', '>>', '!<', '!>', '!==', '!=~', '=~', '~~', '!~', '', ' ', 'equals', 'neq', 'lte', 'gte', 'less', 'in', 'not', 'starts', 'startwith',
            'not startswith', 'notstartwith', 'nstartswith', '!startswith', '=startswith', 'not_starts_with', 'compat', 'not compatible', 'notcompatible', 'approx', 'e', 'n', 'Eq', 'StartsWith',
            'e q', 'eq eq', '= =', '< =', '> =', '! =', 'eq\x00', '\u200beq', 'ｅｑ', '＝', '＜', 'ﬁ', 'ſtartswith', 'ſtartſwith', 'İncompatible', '==startswith', '!= startswith', '!=STARTSWITH', '!=StartsWith',
            '≠', '≤', '≥', 'ge=', 'is', '~= ', '=~=', '>=<', 'l', 'g', 'leq', 'geq', '!=startswith!', 'x==', '==x', '1', '==1', 'null', 'none']
    for s in all_texts('<>=!~ ', 4):
        rd(s)
    for w in words + near + g.strs:
        rd(w)
        rd(w.upper())
        rd(w.capitalize())
        rd(w.lower())
        for _ in range(6):
            rd(g.recase(w))
        for s in WS + FAKEWS:
            rd(s + w)
            rd(w + s)
            if g.chance(0.3):
                rd(s + s + w + g.pick(WS))
                k = g.r.randrange(len(w) + 1)
                rd(w[:k] + s + w[k:])
        for _ in range(8):
            k = g.r.randrange(len(w) + 1)
            x = g.r.random()
            rd(w[:k] + w[k + 1:] if x < 0.4 else w[:k] + g.pick('=<>!~aeqnltgs \u00a0') + w[k:] if x < 0.8 else w[:k] + g.pick('=<>!~aeqnltgs') + w[k + 1:])
    for a in words:
        for b in words:
            rd(a + b)
            rd(a + ' ' + b)
    return cmds


def gen_c10(g):
    cmds = [pair(a, b, 'sw') for a, b in itertools.combinations_with_replacement(CORE, 2)]
    for _ in range(g.n(2300)):
        x = g.r.random()
        a = g.ver_ok()
        if x < 0.45:
            toks = re.findall(r'\d+|[._\-]|[^\d._\-]+', a) or ['']
            b = ''.join(toks[:g.r.randrange(1, len(toks) + 1)])
            if g.chance(0.4):
                b = g.mutant(b)
        elif x < 0.7:
            b = a + g.pick(['', '.', '-']) + g.pick([g.num(), g.tag(), '0', '.', ''])
        elif x < 0.85:
            b = g.mutant(a)
        else:
            a, b = g.related()
        if g.ok(b):
            cmds.append(pair(a, b, 'sw'))
    for _ in range(g.n(120)):
        base = g.ver_ok(local=0.05)
        ts = [base]
        while len(ts) < 14:
            t = g.pick(ts)
            y = g.r.random()
            t = t + g.pick(['.', '']) + g.pick([g.num(), g.tag(), '0']) if y < 0.4 else g.mutant(t) if y < 0.8 else g.pick([t.rsplit('.', 1)[0], t + '.0', t + '+l', t.upper()])
            if g.ok(t) and t not in ts:
                ts.append(t)
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in ts], 'w': 'sw'})
    for _ in range(g.n(30)):
        cmds.append({'c': 'pool', 'ts': [cp(t) for t in g.longs(9)], 'w': 'sw'})
    for k in [32, 64, 65, 128, 129, 256] + g.dsizes[:12]:
        f = '.'.join(g.pick(['0', '1', 'a', '7']) for _ in range(k))
        for x, y in (('', ''), ('.1', ''), ('.1', '.2'), ('.a', '.A'), ('.1', '.1.0'), ('+l', ''), ('.post', '.post')):
            cmds.append(pair(f + x, f + y, 'sw'))
    for k in (3, 64, 255, 256, 257, 300, 1030, 2050):
        f = '.'.join(g.pick(['0', '1', 'a', '7']) for _ in range(k))
        l = f.split('.')
        # much longer than the prefix, equal to it, shorter by one, different at the end
        for b in (l[0], '.'.join(l[:2]), '.'.join(l[:k // 2]), f, '.'.join(l[:-1]), '.'.join(l[:-1] + ['8']), ''):
            cmds.append(pair(f, b, 'sw'))
    return cmds


# ---- terms -------------------------------------------------------------------------------------------

def term(t, cands, sv=None, x=None):
    c = {'c': 'term', 't': cp(t), 'cands': [cp(v) for v in cands]}
    if sv is not None:
        c['sv'] = cp(sv)
    if x is not None:
        c['x'] = x
    return c


SMALLC = ['1', '1.0', '1.1', '1.10', '1.2', '0.9', '2', '1.a', '1a', '1.dev', '1.post', '1+l', '1!1', '', '01', '1-1', '10', '1.1.1']


def gen_c11(g):
    t = T(g)
    cmds = []
    for v in ['1', '1.1', '1.0', '1.a', '1+l', '0!1', '1.post', '01.1', '1.dev0', 'a', '1.', '.', '1.1+', '1!']:
        for o in ('==', '!=', '<', '<=', '>', '>=', ''):
            for st in ('', '.*', '.*.*', '*', '..*'):
                if (st and o in ('', '!=')):
                    continue
                cmds.append(term(o + v + st, SMALLC + [c for c in (v + st, v + '.*', v + '.') if g.ok(c)], (v + st)[:-2] if (v + st).endswith('.*') else v + st))
    for _ in range(g.n(1300)):
        s, v = t.rel()
        cmds.append(term(s, t.cands(v, 8), v))
    for _ in range(g.n(120)):
        s = t.attext()
        cmds.append(term(s, []))
        s, v = t.wild()
        cmds.append(term(s, []))
        cmds.append(term(t.globtext()[0], []))
        n = g.num()[:4]
        cmds.append(term(g.pick(['^%s$', '^%s.*$', '^(%s|a)$', '^==%s$', '^[%s]$', '^$', '^%s@$', '^=%s*$', '*', '*%s', '%s*0', '==%s.*@', '@%s', '==%s', '%s|1', '1,%s', '(%s)', '%s,<2|3', '((1|%s),3)', '^%s$|^1$', '(1|%s)', '%s@,1', '(==%s)', '(%s@)', '((==%s))', '(>%s)', '(==%s,%s@)']).replace('%s', n), ['1']))
    for s, v, cs in longterms(g, lambda v: [o + v + st for o in ('==', '!=', '<', '<=', '>', '>=', '') for st in ('', '.*') if not (st and o in ('', '!='))]):
        cmds.append(term(s, cs, v))
    for d in g.corpus()[1]:
        m = re.fullmatch(r'(==|!=|<=|>=|<|>|)([^<>=!~^$*,|() ]+)', d)
        if m and g.ok(m.group(2)):
            cmds.append(term(d, t.cands(m.group(2), 4), m.group(2)))
    return cmds


def gen_c12(g):
    t = T(g)
    cmds = [term('*', CORE), term('*', [g.ver_ok() for _ in range(40)])]
    for v in ['1', '1.1', '1.0', '1.a', '0!1', '1.post', '01.1', '1.dev0', 'a', '10', '1a', '1.1+l']:
        for f in ('%s.*', '%s*', '=%s', '=%s.*', '!=%s.*', '%s.**', '%s**', '%s..*'):
            cmds.append(term(f % v, SMALLC + [v, v + '.1', v + '1', v + '.0', v.upper()], v))
    for _ in range(g.n(1300)):
        s, v = t.wild()
        cs = t.cands(v, 6)
        for _ in range(3):
            c = g.pick(cs) + g.pick(['.', '-', '']) + g.pick([g.num(), g.tag()])
            if g.ok(c) and c not in cs:
                cs.append(c)
        cmds.append(term(s, cs, v))
    for s, v, cs in longterms(g, lambda v: [f % v for f in ('%s.*', '%s*', '=%s', '=%s.*', '!=%s.*', '%s.**')]):
        cmds.append(term(s, cs, v))
    return cmds


def longterms(g, forms):
    """Terms about long versions, candidates that agree with them for long."""
    for _ in range(g.n(50)):
        vs = g.longs(7, cap=130)
        us = [v for v in vs if stem_ok(v) and '%' not in v]
        for v in us[:2]:
            yield g.pick(forms(v)), v, vs


def gen_c13(g):
    t = T(g)
    cmds = []
    for _ in range(g.n(900)):
        v = g.ver_ok(unicode=g.chance(0.2), k=g.pick([1, 2, 2, 3, 4]), local=0.25)
        al = ''.join(sorted(set(v))) + '01.a+' + g.pick(['', '', '', '\u0663\u096b', '\uff15\u0663', '\u0967\u00b2', '\u00e9\u00c9'])
        rx = Rx(g, al)
        x = g.r.random()
        a = rx.near(v) if x < 0.55 else rx.term(2) if x < 0.97 else rx.broken()
        s = rx.text(a)
        if s[0] != '^' or s[-1] != '$' or len(s) > 120:
            continue
        cs = t.cands(v, 4)
        for _ in range(4):
            c = ''.join(g.pick(al) for _ in range(g.r.choice([1, 2, 3, 4])))
            if g.ok(c) and c not in cs:
                cs.append(c)
        if g.chance(0.5):
            c = g.pick(cs)
            cs += [c + '\n' + g.pick(cs), g.pick([c + '\n', '\n' + c, c + '\n\n', c[:len(c) // 2] + '\n' + c[len(c) // 2:], c + '\r', c + '\r\n', c + '\u2028' + c, c + '\x0b', c + '\x85'])]
        cs = [c for c in dict.fromkeys(cs) if len(c) < 60 and g.ok(c)]
        cmds.append(term(s, cs, x={'ast': a}))
    # long ones: hundreds of alternatives, long runs, counted repetition
    lits = lambda w: ['cat', [['lit', ord(c)] for c in w]]
    for k in (30, 100, 250, 420):
        ws = ['%d%s%d' % (i, g.pick('abxyz'), i) for i in range(k)]
        rx = Rx(g)
        w = '.'.join(ws)[:k]
        for a, cs in ((['cat', [['bol'], ['grp', ['alt', list(map(lits, ws))]], ['eol']]], [ws[0], ws[-1], g.pick(ws), g.pick(ws) + '0', '0']),
                      (['cat', [['bol']] + lits(w)[1] + [['eol']]], [w, w[:-1], w + '0', w[:k // 2] + 'q' + w[k // 2 + 1:]]),
                      (['cat', [['bol'], ['rep', ['lit', 55], k, k], ['eol']]], ['7' * k, '7' * (k - 1), '7' * (k + 1)]),
                      (['cat', [['bol'], ['rep', ['dig'], 1, -1], ['lit', 97], ['rep', ['any'], 0, -1], ['eol']]], ['7' * k + 'a', '7' * k, '7' * k + 'a' * k])):
            cmds.append(term(rx.text(a), [c for c in dict.fromkeys(cs) if g.ok(c)], x={'ast': a}))
        for s in ('1*' + w[-1], w[:1] + '*' + w[1:], '*'.join(w[:9]) + '*' * 3 + w[9:], '*' + w[k // 2:]):
            if '*' in s.rstrip('*'):
                cmds.append(term(s, [c for c in dict.fromkeys([w, w + '0', w[:-1], '0' + w, '1' + w, w[:9] + w]) if g.ok(c)]))
    for _ in range(g.n(900)):
        s, v = t.globtext()
        if len(s) > 80:
            continue
        cs = t.globcands(s, v, 7)
        if g.chance(0.4) and cs:
            c = g.pick(cs)
            cs = cs + [x for x in (c + '\n' + g.pick(cs), c + '\n', '\n' + c, c[:len(c) // 2] + '\n' + c[len(c) // 2:], c + '\r\n', c + '\x85' + c) if g.ok(x)]
        cmds.append(term(s, list(dict.fromkeys(cs))))
    for s, v, cs in longterms(g, lambda v: [v[:i] + '@' + v[i:] for i in (0, 1, len(v) // 2, len(v))]):
        if terms_of(s) == [s] and '*' not in s:
            cmds.append(term(s, [c for c in [s, s + '0', s[:-1], s.upper(), s.lower()] + cs[:2] if g.ok(c)]))
    for s, v, cs in longterms(g, lambda v: ['*' + v, v[:len(v) // 2] + '*' + v[len(v) // 2:], v[:-1] + '*' + v[-1:], v[:1] + '*' + v[-1:], '*' + v[1:-1] + '*' + v[-1]]):
        if not re.search(r'[\\()\[\]{}|?^$!<>=~,]', s):
            cmds.append(term(s, cs))
    for v in ('1.2.3', '1+l', '1.a', '1.22.3', '1!2.3', '12.3'):
        for i in range(len(v)):
            for j in range(i, len(v)):
                s = v[:i] + '*' + v[j:]
                if '*' in s.rstrip('*'):
                    cmds.append(term(s, ['1.2.3', '1.23', '1-2-3', '1x2y3', '1.2.33', '01.2.3', '1+l', '1+', '11l', '1.a', '1!2.3', '1!2x3', '', '1.22.3', '12.3', '1.2.3.', '.1.2.3'] + [v, v.replace('.', 'x')]))
    for _ in range(g.n(400)):
        s = t.attext()
        cs = [s] if g.ok(s) else []
        for _ in range(6):
            c = g.pick([s.replace('@', ''), s + '.0', s.upper(), s.lower(), s.swapcase(), '0' + s, s + '0', s[:-1], s.replace('.', '-'), g.mutate(s), s + ' ', s + '.', s.replace('@', '@@')])
            if g.ok(c) and c not in cs:
                cs.append(c)
        cmds.append(term(s, cs))
    return cmds


def gen_c14(g):
    t = T(g)
    e = E(g)
    cmds = []
    few = ['1', '1.2', '1.2a+l', '']
    for s in all_texts('<=!1.*', 4):
        cmds.append(term(s, []))
    for s in all_texts('~=>1 @', 3):
        cmds.append(term(s, ['1', '1.2']))
    for s in all_texts('^$1*(.', 3):
        cmds.append(term(s, few))
    for o in ['', '==', '!=', '<', '<=', '>', '>=', '=', '~=', '!', '~', '=<', '=>', '===', '!==', '<>', '==!', '=!']:
        for v in ['1', '1.2', '', '1 ', ' 1', '1!2!3', 'a!1', '1+2+3', '1.*', '*', '.*', '1.2.*', '1*', '1@', '@', '1+l.*', '!1', '1!', '=', '^1$', '1\u00a02', '1\u3000', '1\n', '\t1', 'é', '1.2**', '1.*.*',
                  '1!2!3.*', 'x!1.*', '1+2+3*', 'x!', 'x!.*', '!.*', '!', '!!.*', '!!', '+', '++', '++.*', '+.*', 'a!*', '1!.*', '1!*', '-!1', '-!.*', '32768!', '32768!.*', '1!2!.*', '1++.*', 'x!1*', 'x!1**']:
            cmds.append(term(o + v, few))
    for b in WS + FAKEWS + ['\n', '$', '^', 'x', '.', '*', '@', '+', '!', '(', ')', ',', '|']:
        for v in ('^1$', '^$', '^1.*$', '1', '==1', '1.*', '*', '1*2', '1@2', '=1', '!=1.*'):
            for s in (b + v, v + b, b + v + b, v[:1] + b + v[1:], v[:-1] + b + v[-1:]):
                if g.chance(0.45):
                    cmds.append(term(s, few[:2]))
    for _ in range(g.n(1500)):
        cmds.append(term(t.anyterm(), [g.ver_ok() for _ in range(2)]))
    for _ in range(g.n(260)):
        # long ones, of characters of one to four bytes
        n = g.longsize(300)
        u = g.pick('éж中😀a1') * n if g.chance(0.6) else ''.join(g.pick('éж中😀a1.-_ ') for _ in range(n))
        u = g.pick(['', 'a', 'aa', 'aaa', '1.']) + u
        s = g.pick(['^%s', '%s$', '^%s$', '==%s', '%s', '%s*', '=%s.*', '~=%s.*', '<>%s', '=%s 1', '!%s', '1*%s', '*%s(', '^(%s$', '%s@', '@%s@', 'x!%s', '%s!1', '1+%s+2', '%s!2!3', '1!%s', '1+%s', '!=%s.*', '%s.*', '~%s', '<%s<', '%s+1.*']) % u
        cmds.append(term(s, [u] if g.ok(u) and g.chance(0.3) else few[:1]))
        if g.chance(0.5):
            x = g.pick(['%s,', '(%s', '1|%s|', '%s)', '(%s))', '1,(%s', '%s(1', ',%s', '%s|(', '()%s', '(%s)(1)'])
            s = x % (s if g.chance(0.6) else u)
            if terms_of(s) is not None:
                cmds.append({'c': 'expr', 't': cp(s), 'terms': [cp(k) for k in terms_of(s)], 'cands': [cp('1')], 'w': 'tree render debug'})
    rx = Rx(g, '01.a')
    for _ in range(g.n(250)):
        whole = g.chance(0.5)
        a = rx.term(2) if whole else rx.broken()
        if whole and g.chance(0.3) and a[0] == 'cat':       # (one defect only: two might mend each other)
            a = ['cat', a[1][:-1] + [['bad', cp(g.pick(['(', ')', '[', '(?', '\\q', '[z-a]', 'a{2,1}']))]] + a[1][-1:]]
        s = rx.text(a)
        if s and s[0] == '^' and s[-1] == '$' and not s.endswith('\\$'):
            cmds.append(term(s, few, x={'ast': a}))
    for s in ['(1*2', '1*2)', '[*1', '1*[', 'a**b', '1*{2', '1*?2', '*(', '*)1', '(*)1', '*|1', '1*\\', '\\*1', '1.*[.1', '?*1', '**1', '***1', '*1*2**', '^*1', '^(*)$', '^a{99999}{99999}$', '^' + '(' * 300 + '$',
              '^' + '(' * 300 + 'a' + ')' * 300 + '$', '(' * 100 + '*1']:
        cmds.append(term(s, few))
    # expressions
    ex = lambda s, cs: {'c': 'expr', 't': cp(s), 'terms': [cp(k) for k in terms_of(s)], 'cands': [cp(v) for v in cs], 'w': 'tree render debug' if len(s) < 300 else ''}
    for s in all_texts('(1,)|', 4):
        cmds.append(ex(s, ['1']))
    for s in all_texts('(^$1|', 3):
        cmds.append(ex(s, ['1']))
    for _ in range(g.n(500)):
        s = e.write(e.ast(g.r.choice([1, 2, 3])), g.pick([0, 0.3]), g.pick([0, 0.2])) if g.chance(0.5) else ''.join(g.pick(['(', ')', '|', ',', '^', '$', ' ', t.anyterm(), '1', '']) for _ in range(g.r.randrange(1, 8)))
        for _ in range(g.r.choice([0, 0, 1, 2])):
            s = e.spoil(s)
        cmds.append(ex(s, ['1', '1.2']))
    one = E(g, leaf=lambda: g.pick(['1', '<2', '1.*', '>=0']))
    for d in (50, 150):
        cmds.append(ex(one.write(one.chain(d)), ['1']))
    cmds.append(ex('(' * 400 + '1' + ')' * 400, ['1']))
    cmds.append(ex('(' * 400 + '1' + ')' * 399, ['1']))
    cmds.append(ex('1,' * 400 + '1', ['1']))
    # lists
    for _ in range(g.n(250)):
        items = [g.pick([',', '|', ',', '|', '', '1', 'and', '(', ',,', ' ,', '^', '||'])] + [g.pick([t.anyterm(), t.rel()[0], '1', '', '(1,2)', '1|2', '!']) for _ in range(g.r.choice([0, 1, 2, 3]))]
        if g.chance(0.05):
            items = []
        cmds.append({'c': 'vec', 'items': [cp(s) for s in items], 'cands': [cp('1'), cp('1.2')]})
    return [c for c in cmds if '~=' not in str_of(c) or c['c'] != 'vec']


def str_of(c):
    return ' '.join(uncp(s) for s in c.get('items', []))


# ---- versions made by a caller's parser --------------------------------------------------------------

def gen_c25(g):
    cmds = []
    t = T(g)
    num = lambda: ['I', cp(g.pick(['', '', '1', '2', '9', '10', '2147483647', str(g.r.randrange(1, 2 ** 31))]))]
    tag = lambda: ['T', cp(re.sub(r'[!+._\-\d]|[^a-zA-Z]', '', g.tag()) or g.pick(['a', 'rc', 'dev', 'post']))]
    loc = lambda: ['L', cp(g.clean(g.local()) or 'x')]
    part = lambda: num() if g.chance(0.5) else tag() if g.chance(0.7) else loc()

    def made():
        p = [part() for _ in range(g.r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9]))]
        if g.chance(0.25):
            p.insert(0, ['E', [g.pick([0, 0, 1, -1, 2, 255, 256, -32768, 32767])]])
        return p or [['Z', []]]

    def tweak(p):
        p = [list(x) for x in p if x[0] != 'Z']
        x = g.r.randrange(8)
        if x == 0:
            p.append(g.pick([['I', []], ['I', []], part()]))
        elif x == 1 and len(p) > 1:
            p.pop()
        elif x == 2 and p:
            i = g.r.randrange(len(p))
            p[i] = ['E', [g.pick([0, 1, -1, 7])]] if p[i][0] == 'E' else part()
        elif x == 3 and p:
            i = g.r.randrange(len(p))
            if p[i][0] in 'TL':
                p[i] = [p[i][0], cp(uncp(p[i][1]).swapcase())]
        elif x == 4 and p:
            i = g.r.randrange(1 if p[0][0] == 'E' else 0, len(p) + 1)
            p.insert(i, part())
        elif x == 5 and p and p[-1][0] in 'TL':
            p[-1] = ['L' if p[-1][0] == 'T' else 'L', p[-1][1]]
        elif x == 6 and p and p[0][0] == 'E':
            p.pop(0)
        elif x == 7 and p and p[0][0] != 'E':
            p.insert(0, ['E', [g.pick([0, 1, -1])]])
        return p or [['Z', []]]
    for n in range(g.n(260)):
        ps = [made()]
        if g.chance(0.1):
            # parts that say nothing, at the end
            k = g.pick([1, 2, 3, 8, 40])
            ps += [ps[0] + [['I', []]] * k, ps[0] + [['I', []]] * k + [part()], ps[0][:1] + [['I', []]] * k] if ps[0][0][0] != 'Z' else [[['I', []]] * k]
        if n % 10 == 0:
            # many components that are the same in all of them
            k = g.longsize(66)
            front = [part() for _ in range(k)]
            ps = [front[:], front[:-1] + [part()], front + [['I', []]], front[:-1] or [num()], front + [tag()]]
            if g.chance(0.3):
                ps = [[['E', [1]]] + p for p in ps]
        while len(ps) < (8 if n % 10 else 6):
            ps.append(tweak(g.pick(ps)) if g.chance(0.8) else made())
        txt = [g.pick(['', '1', '1.0', 'x', '1!2!3', '1+2+3', 'a!1', 'é', '1.0-custom', 'v1_2', g.version()]) for _ in range(3)]
        vs = [{'t': cp(g.pick(txt) if g.chance(0.8) else g.version()), 'p': p} for p in ps]
        back = []
        for p in ps[:3]:
            # a text that reads as these components, where there is one
            s = '.'.join(uncp(x[1]) or '0' for x in p if x[0] in 'IT')
            s = (('%d!' % p[0][1][0]) if p[0][0] == 'E' else '') + s + ('+' + uncp(p[-1][1]) if p[-1][0] == 'L' else '')
            if g.ok(s):
                back.append(s)
        texts = back + [x for x in txt if g.ok(x)] + [g.ver_ok() for _ in range(2)]
        terms = ['*', g.pick(['1*0', '*1', '1.*-custom', 'v*2']), '1.0@', g.pick(['1', '<1', '>=1.0', '!=1', '==1.0', '=1', '1.*', '!=1.*', '<=1.a'])]
        for s in back:
            s = s.replace('+', '.')
            if re.fullmatch(r'[0-9a-z.]+', s):
                terms += [g.pick(['==', '<', '<=', '>', '>=', '!=', '']) + s, g.pick(['=%s', '%s.*', '%s*', '!=%s.*']) % s]
        cmds.append({'c': 'made', 'vs': vs, 'texts': [cp(x) for x in dict.fromkeys(texts)], 'terms': [cp(x) for x in dict.fromkeys(terms)]})
    return cmds


# ---- expressions ---------------------------------------------------------------------------------------

def expr(s, cands, w):
    return {'c': 'expr', 't': cp(s), 'terms': [cp(k) for k in terms_of(s)], 'cands': [cp(v) for v in cands], 'w': w}


def valuations(g, names):
    """k terms over 2^k candidates whose answers run through all valuations."""
    k = len(names)
    cands = ['%d.%d' % (g.r.randrange(1, 9), i) for i in range(2 ** k)]
    leaf = []
    for j in range(k):
        vs = [cands[i] for i in range(2 ** k) if i >> j & 1]
        leaf.append('^(' + '|'.join(v.replace('.', '\\.') for v in vs) + ')$')
    return leaf, cands


def skeletons(kmax):
    """All expression texts over distinct leaves, from the model's own enumeration is too large; a systematic family."""
    out = []
    for n in range(1, kmax + 1):
        for ops in itertools.product(',|', repeat=n - 1):
            flat = ['T']
            for o in ops:
                flat += [o, 'T']
            out.append(flat)
            # one parenthesised range
            for i in range(n):
                for j in range(i, n):
                    f = []
                    for m in range(n):
                        if m:
                            f.append(ops[m - 1])
                        if m == i:
                            f.append('(')
                        f.append('T')
                        if m == j:
                            f.append(')')
                    out.append(f)
    return out


def gen_c15(g, model_strings=()):
    cmds = []
    sk = skeletons(4)
    for f in sk + [list(x) for x in model_strings]:
        n = f.count('T')
        if n == 0 or n > 4:
            continue
        leaf, cands = valuations(g, range(n))
        it = iter(leaf)
        s = ''.join(next(it) if x == 'T' else x for x in f)
        cmds.append(expr(s, cands, ''))
    for _ in range(g.n(350)):
        # thresholds: all answers of a chain of bounds
        e = E(g, leaf=lambda: g.pick(['<', '<=', '>', '>=', '==', '!=', '=', '']) + '%d.%d' % (g.r.randrange(0, 4), g.r.randrange(0, 3)) + g.pick(['', '', '.*']))
        a = e.ast(g.r.choice([2, 3, 4]), g.r.choice([3, 4, 6]))
        s = e.write(a, 0.15, 0.1)
        s = s if len(s) < 400 else s[:0] + e.write(e.ast(2), 0.1, 0.1)
        cmds.append(expr(s, ['%d.%d' % (i, j) for i in range(4) for j in range(3)] + ['0.0.1', '9', '1.1a'], ''))
    for _ in range(g.n(400)):
        e = E(g)
        a = e.ast(g.r.choice([1, 1, 2, 3]))
        s = e.write(a, 0.15, 0.1)
        vs = [x.strip('<>=!*.') for x in e.leaves(a)]
        cs = [c for c in [g.mutate(v) for v in vs[:4]] + g.r.sample(vs, min(len(vs), 6)) if g.ok(c)] + [g.ver_ok() for _ in range(2)] + ['1', '1.2']
        cmds.append(expr(s, list(dict.fromkeys(cs)), ''))
    cmds += big_exprs(g, '')
    for _ in range(g.n(110)):
        # many alternatives (or conjuncts), candidates that are one of them in another spelling
        n = g.pick([2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 33])
        vs = ['%d.%d' % (i // 4, i % 4) + g.pick(['', '', 'a', '.1', 'rc1', '.post2', '.dev']) for i in g.r.sample(range(60), n)]
        o = g.pick(['', '==', '=', '', 'any']) if g.chance(0.7) else '!='
        tm = lambda v: (g.pick(['', '==', '<', '>=', '=', '!=']) if o == 'any' else o) + v + (g.pick(['', '', '', '.*']) if o in ('=', '==', '!=') else '')
        leaf = [tm(v) for v in vs]
        cs = [x for x in [g.respell(v) for v in g.r.sample(vs, min(n, 7)) + vs[-2:] + vs[:1]] + g.r.sample(vs, min(2, n)) + ['99', '0'] if g.ok(x)]
        c = g.pick('||,')
        if g.chance(0.5):
            cmds.append(expr(c.join(leaf), cs, ''))
        elif g.chance(0.5):
            d = ',' if c == '|' else '|'
            cmds.append(expr(c.join(leaf) + c + '(' + d.join(g.r.sample(leaf, 2)) + ')', cs, ''))
        else:
            cmds.append({'c': 'vec', 'items': [cp(c)] + [cp(x) for x in leaf], 'cands': [cp(x) for x in cs]})
    for _ in range(g.n(90)):
        # terms about versions whose texts continue one another, those versions as candidates
        b = g.pick(['1', '1.1', '2.1', '0.1', '1a', '1.a', '1.0', '10', '1-1', '1.post1', '1_rc', '2!1', '1+1', g.ver_ok()])
        if not stem_ok(b):
            continue
        vs = [b]
        while len(vs) < g.r.choice([2, 2, 3, 4]):
            v = g.pick(vs) + g.pick(['0', '0', '.0', '00', '1', 'a', '.1', '.post', '_', '-0'])
            if stem_ok(v) and g.ok(v) and not any(c in v for c in '()|,^$'):
                vs.append(v)
            elif g.chance(0.1):
                break
        g.r.shuffle(vs) if g.chance(0.5) else None
        o = g.pick(['', '', '==', '!=', '<', 'any'])
        leaf = [(g.pick(['', '==', '!=', '<', '>=', '<=', '>']) if o == 'any' else o) + v for v in vs]
        if any(terms_of(t) != [t] for t in leaf):
            continue
        c = g.pick('|||,')
        cs = list(dict.fromkeys(vs + [v + '0' for v in vs if g.ok(v + '0')] + [b + '.0'] * g.ok(b + '.0')))
        cmds.append(expr(c.join(leaf), cs, '') if g.chance(0.8) else {'c': 'vec', 'items': [cp(c)] + [cp(x) for x in leaf], 'cands': [cp(x) for x in cs]})
    for _ in range(g.n(60)):
        # lists with odd members: empty terms, repeated terms, white space, expressions
        leaf = [g.pick(['', '', ' ', '.', '0', '1', '1', '*', '(1)', '1|2', ' 1', '1 ', '!=1', '>0', '==', '-', '+l', '0!', '^$', '^1$', '@', '\t']) for _ in range(g.r.choice([1, 2, 2, 3, 4]))]
        cmds.append({'c': 'vec', 'items': [cp(g.pick(',|'))] + [cp(x) for x in leaf], 'cands': [cp(c) for c in ('', '0', '1', '1.0', '2', '1 ', ' 1', '@', '.', '-1', '\t')]})
    for _ in range(g.n(200)):
        k = g.r.choice([1, 2, 3, 4])
        leaf, cands = valuations(g, range(k))
        if g.chance(0.4):
            leaf = ['<1.%d' % g.r.randrange(9) if g.chance(0.5) else g.pick(['>=2', '1.*', '!=3.1', '*', '1.1', '<3|>5', '(>1,<5)', '>1,<5']) for _ in leaf]
        cmds.append({'c': 'vec', 'items': [cp(g.pick(',|'))] + [cp(x) for x in leaf], 'cands': [cp(c) for c in cands]})
    for _ in range(g.n(250)):
        k = g.r.choice([2, 3, 4])
        leaf, cands = valuations(g, range(k))
        order = list(leaf)

        def grow(ls):
            if len(ls) == 1:
                return ('t', ls[0]) if g.chance(0.8) else (g.pick(['And', 'Or', 'None']), [('t', ls[0])])
            cut = sorted(g.r.sample(range(1, len(ls)), min(len(ls) - 1, g.pick([1, 1, 2]))))
            ps = [ls[i:j] for i, j in zip([0] + cut, cut + [len(ls)])]
            return (g.pick(['And', 'Or']), [grow(p) for p in ps])
        a = grow(order)
        if a[0] == 't':
            continue
        cmds.append({'c': 'hand', 'a': hand(a), 'terms': [cp(x) for x in E(g).leaves(a)], 'cands': [cp(c) for c in cands]})
    return cmds


def big_exprs(g, w):
    out = []
    one = E(g, leaf=lambda: g.pick(['<', '<=', '>', '>=', '!=', '==', '']) + '%d.%d' % (g.r.randrange(0, 4), g.r.randrange(0, 3)))
    cs = ['0', '0.1', '1', '1.1', '2.2', '3']
    for d in [5, 10, 17, 33, 40] + [n for n in g.dsizes if n < 70][:8]:
        out.append(expr(one.write(one.chain(d)), cs, w))
        out.append(expr(one.write(one.flat(d + 1)), cs, w))
        s = one.write(one.ast(1))
        out.append(expr('(' * d + s + ')' * d, cs, w))
    for n in (64, 65, 130, 260) + ((1100,) if w is not None else ()):
        if n < 999:
            out.append(expr(one.write(one.flat(n)), cs, w))
        for c in ',|':
            # of many terms one decides
            ts = [g.pick(['>', '>=', '!=']) + '0.0.%d' % (i + 1) if c == ',' else g.pick(['<', '==', '<=']) + '0.0.%d' % (i + 1) for i in range(n + g.r.randrange(3))]
            cs1 = []
            for i in g.r.sample(range(len(ts)), 2) + [len(ts) - 1 - g.r.randrange(9)]:
                ts[i] = ('!=' if c == ',' else '==') + '5.%d' % i
                cs1.append('5.%d' % i)
            out.append(expr(c.join(ts), cs1 + ['5', '6'], w))
        if n > 999:
            continue
        out.append(expr('|'.join(one.write(('And', [('t', one.leaf()), ('t', one.leaf())]), parent=None) for _ in range(n // 2)), cs, w))
        out.append(expr(','.join('(' + one.leaf() + '|' + one.leaf() + ')' for _ in range(n // 2)), cs, w))
    return out


LEAFS = ['1', '<2', '>=1.2', '==1.0', '!=1.1', '1.*', '=1', '*', '1.*.2', '^1$', '^(1|2)$', '^a,b$', '1@2', '!=1.*', '^(($', '1+l', '1!2', '<=a', '^)$', '^$']
BADLEAFS = ['!', '==', '<>1', '1!2!3', '=!1', '^1', '1$', '< 1', '1+2+3', '~=1.*', '~', '===1', '>=', '^', '$', 'x!1', '(1*', '1 2<', '==1 ']


def gen_c16(g, model_strings=()):
    cmds = []
    for f in model_strings:
        s = ''.join(g.pick(LEAFS) if x == 'T' else x for x in f)
        if g.chance(0.3):
            s = ''.join((g.pick(LEAFS) if x == 'T' else x) + (g.pick([' ', '', '\t', '\u3000 ', '\n']) if x != 'T' else g.pick(['', ' '])) for x in f)
        cmds.append(expr(s, [], ''))
        if g.chance(0.15) and 'T' in f:
            k = g.pick([i for i, x in enumerate(f) if x == 'T'])
            s = ''.join(g.pick(BADLEAFS) if i == k else g.pick(LEAFS) if x == 'T' else x for i, x in enumerate(f))
            cmds.append(expr(s, [], ''))
    e = E(g)
    for _ in range(g.n(1200)):
        s = e.write(e.ast(g.r.choice([0, 1, 2, 3])), g.pick([0, 0.2, 0.4]), g.pick([0, 0.1, 0.3]))
        x = g.r.random()
        for _ in range(0 if x < 0.3 else 1 if x < 0.8 else 3):
            s = e.spoil(s)
        if len(s) < 500:
            cmds.append(expr(s, [], ''))
    for _ in range(g.n(500)):
        s = ''.join(g.pick(['(', ')', '|', ',', '(', ')', '|', ',', ' ', g.pick(LEAFS), g.pick(LEAFS), g.pick(LEAFS), g.pick(BADLEAFS) if g.chance(0.2) else '1', '^', '$']) for _ in range(g.r.randrange(1, 14)))
        cmds.append(expr(s, [], ''))
    for s in ['', ' ', '()', '(', ')', '((()))', '^', '^$', '^(|,)$', '^1$|^2$', '^1|2$', '1,^2|3$', '1 ^2$', '^1$2', '^1$ 2', '^1$^2$', '(^1$)', '(^(1)$,2)', '1^2$', '1^2|3$', '1$', '1|2$', '^1|2', '(^1|2)', '^1$)',
              '(1 2)', '1 2', '1,2', ' 1 , 2 ', '1,\n2', '\u00a01\u3000|\u20282', '1\u200b|2', '1|,2', '1,|2', ',1', '1,', '(,1)', '(1,)', '()1', '1()', '(1)2', '1(2)', '(1)(2)', '1,()', '((1)', '(1))', ')1(']:
        cmds.append(expr(s, [], ''))
    one = E(g, leaf=lambda: g.pick(['1', '<2', '>=1']))
    for d in (20, 60, 120):
        for s in (one.write(one.chain(d)), '(' * d + '1' + ')' * d, '1' + ',1' * d, '1' + '|1' * d):
            cmds.append(expr(s, [], ''))
            cmds.append(expr(one.spoil(s), [], ''))
    # parentheses that do not pair, as many as a byte counts and more
    for d in (2, 127, 128, 129, 254, 255, 256, 257, 512, 1024):
        for s in ('(' * d + '1', '(' * d + '1|2', '1' + ')' * d, '(' * d + '1' + ')' * (d - 1), '(' * (d - 1) + '1' + ')' * d, '1,' + '(' * d + '2', '(1|2),' + '(' * d + '2|3'):
            if d < 300 or s.count('(') == 0 or s.count(')') < 2:
                cmds.append(expr(s, [], ''))
    for d in (255, 256, 257, 1024):
        for s in ('1' + '|1' * d, '1' + ',1' * d, '1' + '|' * d + '2', '1' + ',' * d, ',' * d + '1', '()' * d, '1' + '|1' * d + '|', '1' + ',1' * d + ',)'):
            cmds.append(expr(s, [], ''))
    return cmds


def nice_exprs(g, n):
    e = E(g)
    out = []
    while len(out) < n:
        a = e.ast(g.r.choice([0, 1, 1, 2, 2, 3]), g.r.choice([3, 3, 5]))
        s = e.write(a, g.pick([0, 0.2]), g.pick([0, 0.15]))
        if len(s) < 500:
            out.append((a, s))
    return out


def gen_c17(g, model_strings=()):
    cmds = []
    cs = ['1', '1.2', '2', '0.9', '1.2a1']
    for f in model_strings:
        s = ''.join(g.pick(LEAFS[:14]) if x == 'T' else x for x in f)
        cmds.append(expr(s, cs, 'tree render'))
    for a, s in nice_exprs(g, g.n(700)):
        cmds.append(expr(s, cs, 'tree render'))
    cmds += [dict(c, w='tree render') for c in big_exprs(g, '')]
    return cmds


def gen_c18(g, model_strings=()):
    cmds = []
    e = E(g)
    for f in model_strings:
        s = ''.join(g.pick(LEAFS[:14]) if x == 'T' else x for x in f)
        cmds.append(expr(s, [], 'tree debug'))
    for a, s in nice_exprs(g, g.n(500)):
        cmds.append(expr(s, [], 'tree debug'))
        # other texts of the same expression
        cmds.append(expr(e.write(a, 0.3, 0.3), [], 'tree debug'))
    cmds += [dict(c, w='tree debug', cands=[]) for c in big_exprs(g, '')]
    few = ['1', '1.0', '01', '<2', '^1$', '1.*', '1.A', '1.a', ' 1', '==1', '=1', '1.', '>=1,<2'[:3]]

    def small(d):
        if d <= 0 or g.chance(0.3):
            return ('t', g.pick(few))
        return (g.pick(['And', 'Or', 'None', 'And', 'Or']), [small(d - 1) for _ in range(g.r.choice([0, 1, 1, 2, 2, 2, 3]))])

    def tweak(a):
        if a[0] == 't':
            return ('t', g.pick(few)) if g.chance(0.7) else ('And', [a])
        x = g.r.randrange(7)
        c, p = a
        p = list(p)
        if x == 0:
            return (g.pick(['And', 'Or', 'None']), p)
        if x == 1 and len(p) > 1:
            p.reverse()
            return (c, p)
        if x == 2 and p:
            return (c, p[:-1])
        if x == 3:
            return (c, p + [('t', g.pick(few))])
        if x == 4 and p:
            return (c, p[1:])
        if x == 5 and p:
            return (c, p + [p[-1]])
        if p:
            i = g.r.randrange(len(p))
            p[i] = tweak(p[i])
        return (c, p)
    for _ in range(g.n(1100)):
        a = small(g.r.choice([1, 2, 3]))
        b = a if g.chance(0.25) else tweak(a) if g.chance(0.8) else small(2)
        cmds.append({'c': 'eqtree', 'a': hand(a), 'b': hand(b)})
    for _ in range(g.n(150)):
        items = [g.pick(',|')] + [g.pick([e.goodterm(), '1|2', '(1,2)', '1', '((1))', '1,2,3', '<3']) for _ in range(g.r.choice([1, 2, 3, 4]))]
        cmds.append({'c': 'vec', 'items': [cp(s) for s in items], 'cands': []})
    return cmds


# ---- indexes -----------------------------------------------------------------------------------------------

class IndexFiles:
    def __init__(self, tmp):
        self.dir = tempfile.mkdtemp(dir=tmp)
        self.n = 0
        self.slots = 0

    def slot(self):
        self.slots += 1
        return self.slots

    def put(self, data):
        p = os.path.join(self.dir, 'r%d.json' % self.n)
        self.n += 1
        if isinstance(data, str):
            data = data.encode('utf-8')
        open(p, 'wb').write(data)
        return p


def index_cmd(path, file, doc):
    return {'c': 'index', 'path': path, 'file': file, 'doc': doc}


NODOC = ['null']


def model_docs(prop, g, docs, files):
    """Documents typed by the model of the loader, as files."""
    cmds = []
    for x in docs:
        d = x['d']
        if prop == 'C27':
            cmds.append(select(g, d, files))
        elif prop == 'C29':
            cmds.append(ways(g, files, files.plans, d))
        elif prop == 'C21':
            tw = D(g).twin(d) if x['s'] == 'ok' else d
            paths = [files.put(Writer().write(y)) for y in (d, turned(d), tw)]
            cmds.append({'c': 'present', 'x': {'docs': [d, turned(d), tw]}, 'paths': paths})
        else:
            cmds.append(index_cmd(files.put(Writer(g, g.pick([0, 0, 0.2]), g.pick([0, 0, 0.2])).write(d)), 'json', d))
    return cmds


def turned(d):
    """The fields of the document and of its records the other way round (sections keep their order)."""
    sec = lambda v: ['obj', [[k, ['obj', x[1][::-1]] if x[0] == 'obj' else x] for k, x in v[1]]]
    return ['obj', [[k, sec(v) if uncp(k) in ('packages', 'packages.conda') and v[0] == 'obj' else v] for k, v in d[1][::-1]]]


def repo_doc():
    """The repository's own index, as an abstract document (cut to some entries)."""
    p = os.path.join(gen.REPO, 'core/tests/data/current_repodata.json')
    try:
        d = json.loads(open(p).read(), parse_float=lambda s: ['frac', cp(s)], object_pairs_hook=lambda kv: ['OBJ', kv])
    except Exception:
        return None

    def conv(v):
        if isinstance(v, list) and len(v) == 2 and v[0] == 'OBJ':
            return ['obj', [[cp(k), conv(x)] for k, x in v[1]]]
        if isinstance(v, list) and len(v) == 2 and v[0] == 'frac':
            return v
        if isinstance(v, list):
            return ['arr', [conv(x) for x in v]]
        if isinstance(v, bool):
            return ['bool', v]
        if isinstance(v, int):
            return gen_index.I(v)
        if v is None:
            return ['null']
        return gen_index.S(v)
    return conv(d)


def gen_c19(g, files):
    d = D(g)
    cmds = []
    for i in range(g.n(420)):
        doc = d.doc()
        w = Writer(g, g.pick([0, 0.1, 0.4]), g.pick([0, 0, 0.1, 0.5]))
        cmds.append(index_cmd(files.put(w.write(doc)), 'json', doc))
    for n in [12, 40] + [k for k in g.dsizes if k < 130][:6]:
        doc = d.doc(n)
        cmds.append(index_cmd(files.put(Writer(g).write(doc)), 'json', doc))
    for n in range(g.n(2, 5)):
        a, b, c, u = g.r.sample([260, 300, 600, 1030], 4)
        for doc in (d.wide(entries=a // 2), d.wide(depends=b, removed=c), d.wide(unknown=u), d.wide(entries=g.longsize(150), depends=g.longsize(300), removed=g.longsize(300), unknown=g.longsize(60))):
            cmds.append(index_cmd(files.put(Writer(g, g.pick([0, 0.1]), g.pick([0, 0.1])).write(doc)), 'json', doc))
    rd = repo_doc()
    if rd is not None:
        for _ in range(g.n(3)):
            x = ['obj', []]
            for k, v in rd[1]:
                if uncp(k) in ('packages', 'packages.conda'):
                    v = ['obj', g.r.sample(v[1], min(60, len(v[1])))]
                x[1].append([k, v])
            cmds.append(index_cmd(files.put(Writer().write(x)), 'json', x))
    return cmds


def gen_c20(g, files):
    d = D(g)
    cmds = []
    # every single field of a small document removed, repeated, null, and given every other type and out-of-range number
    base = d.doc(1)
    for seed in range(g.n(2, 4)):
        base = d.doc(1)
        while not all(len(v[1]) == 1 for k, v in base[1] if uncp(k) in ('packages', 'packages.conda')):
            base = d.doc(1)
        for doc in all_faults(base):
            cmds.append(index_cmd(files.put(Writer().write(doc)), 'json', doc))
    for _ in range(g.n(350)):
        doc = d.fault(d.doc())
        for _ in range(g.r.choice([0, 0, 0, 1])):
            doc = d.fault(doc) if well(doc) else doc
        cmds.append(index_cmd(files.put(Writer(g, g.pick([0, 0.2]), g.pick([0, 0.1])).write(doc)), 'json', doc))
    for _ in range(g.n(3, 5)):
        # a defect in the last of many
        doc = d.wide(entries=g.pick([130, 260, 300]), depends=g.pick([0, 70, 300]), removed=g.pick([0, 300]), unknown=g.pick([0, 130]))
        cmds.append(index_cmd(files.put(Writer().write(doc)), 'json', copy.deepcopy(doc)))
        for k, v in doc[1]:
            if uncp(k) == 'removed' and v[1]:
                v[1].append(g.pick([gen_index.I(1), ['null'], ['arr', []]]))
                cmds.append(index_cmd(files.put(Writer().write(doc)), 'json', copy.deepcopy(doc)))
                v[1].pop()
            elif uncp(k) == 'packages' and v[1]:
                e = g.pick(v[1][-3:])[1][1]
                i = g.r.randrange(len(e))
                old = e[i]
                e[i] = [old[0], g.pick([['null'], ['bool', True], ['obj', []]])]
                if uncp(old[0]) in gen_index.FIELDS:
                    cmds.append(index_cmd(files.put(Writer().write(doc)), 'json', copy.deepcopy(doc)))
                e[i] = old
    for v in [['null'], ['arr', []], gen_index.S('x'), gen_index.I(3), ['bool', True], ['obj', []], ['frac', cp('1.5')]]:
        cmds.append(index_cmd(files.put(Writer().write(v)), 'json', v))
    # a document wrapped in something, or as a text, is none
    for _ in range(g.n(6)):
        doc = d.doc(1)
        t = gen_index.S(Writer().write(doc))
        for v in [t, ['arr', [doc]], ['arr', [t]], ['arr', [doc, doc]], ['arr', []], gen_index.S(Writer().write(t)), ['obj', [[cp(g.pick(['repodata', 'data', 'index', '', 'packages', 'info'])), doc]]],
                  ['obj', [[cp('info'), doc], [cp('packages'), doc]]]] + [x for _, x in doc[1]]:
            cmds.append(index_cmd(files.put(Writer(g, g.pick([0, 0.1]), 0).write(v)), 'json', v))
        # a field as the text of its value
        for i, (k, v) in enumerate(doc[1]):
            if uncp(k) in gen_index.ROOT:
                x = copy.deepcopy(doc)
                x[1][i][1] = gen_index.S(Writer().write(v))
                cmds.append(index_cmd(files.put(Writer().write(x)), 'json', x))
    # the file: cut off at every point, followed by other text, not UTF-8, missing, a directory
    doc = d.doc(1)
    text = Writer(g, 0.1, 0.02).write(doc).encode()
    step = 1 if g.tier == 'thorough' else max(1, len(text) // 150)
    for i in range(0, len(text), step):
        cmds.append(index_cmd(files.put(text[:i]), 'cut', NODOC))
    for t in ['x', '{}', ',', ']', '}', '"', '0', 'null', '\x00', text.decode(), '//c', '\ufeff', ' .', '\x0b', '\xa0', '\x1a']:
        cmds.append(index_cmd(files.put(text + t.encode()), 'trailing', NODOC))
        cmds.append(index_cmd(files.put(text + b'\n ' + t.encode()), 'trailing', NODOC))
        if t not in ('{}', '"', text.decode()):
            cmds.append(index_cmd(files.put(t.encode() + text), 'syntax', NODOC))
    for t in [' ', '\n', '\r\n', '\t', ' \n\n ', '\n' * 5000]:
        cmds.append(index_cmd(files.put(text + t.encode()), 'json', doc))
        cmds.append(index_cmd(files.put(t.encode() + text), 'json', doc))
    for _ in range(g.n(60)):
        # spoil one byte inside a string: not UTF-8 any more
        q = [i for i in range(1, len(text) - 1) if chr(text[i]).isalpha() and text[i - 1:i].isalpha()]
        i = g.pick(q)
        cmds.append(index_cmd(files.put(text[:i] + g.pick([b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xf8\x88\x80\x80\x80', b'\xc0\x80', b'\x80', b'\xf4\x90\x80\x80']) + text[i:]), 'nonutf8', NODOC))
    for _ in range(g.n(80)):
        # take out, double or change one structural character
        s = Writer().write(d.doc(1)).encode()
        i, inside, q = 0, False, []
        while i < len(s):
            c = s[i:i + 1]
            if inside and c == b'\\':
                i += 2
                continue
            if c == b'"':
                inside = not inside
            elif not inside and c in b'{}[]:,':
                q.append(i)
            i += 1
        i = g.pick(q)
        c = s[i:i + 1]
        x = g.r.randrange(3)
        # each of these leaves an ill formed text
        if x == 0 and not (c == b',' and False):
            t = s[:i] + s[i + 1:] if c in b'{}[]:' else s[:i] + b',' + s[i:]
        elif x == 1:
            t = s[:i] + c + s[i:] if c in b':,}]' else s[:i] + b':' + s[i + 1:]
        else:
            t = s[:i] + {b'{': b'[', b'}': b']', b'[': b'{', b']': b'}', b':': b',', b',': b';'}[c] + s[i + 1:]
        cmds.append(index_cmd(files.put(t), 'syntax', NODOC))
    cmds.append(index_cmd(os.path.join(files.dir, 'absent.json'), 'missing', NODOC))
    cmds.append(index_cmd(os.path.join(files.dir, 'no', 'such', 'dir.json'), 'missing', NODOC))
    cmds.append(index_cmd('', 'missing', NODOC))
    cmds.append(index_cmd(files.dir, 'directory', NODOC))
    cmds.append(index_cmd(files.put(b''), 'cut', NODOC))
    for kind in ('deep',):
        cmds.append(index_cmd(files.put(b'[' * 100000), 'syntax', NODOC))
        cmds.append(index_cmd(files.put(text[:-1] + b',"x":' + b'[' * 100000), 'syntax', NODOC))
    return cmds


def well(doc):
    """The sections and info are still objects, so that another fault can be planted."""
    ks = [uncp(k) for k, v in doc[1]]
    return all(ks.count(r) == 1 for r in gen_index.ROOT) and all(v[0] == 'obj' for k, v in doc[1] if uncp(k) in ('info', 'packages', 'packages.conda')) and \
        all(r[1][0] == 'obj' and all([uncp(k) for k, v in r[1][1]].count(f) == 1 for f in gen_index.FIELDS) for k, v in doc[1] if uncp(k) in ('packages', 'packages.conda') for r in v[1]) and \
        [uncp(k) for kk, v in doc[1] if uncp(kk) == 'info' for k, _ in v[1]].count('subdir') == 1


def all_faults(doc):
    import copy
    out = [doc]
    paths = []

    def walk(v, p):
        if v[0] == 'obj':
            for i, (k, x) in enumerate(v[1]):
                paths.append((p, i, uncp(k)))
                walk(x, p + [i])
    walk(doc, [])

    def at(d, p):
        for i in p:
            d = d[1][i][1]
        return d
    others = [['null'], ['bool', True], gen_index.I(1), gen_index.I(-1), ['frac', cp('1.0')], ['frac', cp('1e0')], gen_index.S('x'), gen_index.S('1'), ['arr', []], ['obj', []], ['arr', [gen_index.S('a')]],
              ['arr', [gen_index.I(1)]], ['arr', [['null']]]]
    for p, i, k in paths:
        d = copy.deepcopy(doc)
        del at(d, p)[1][i]
        out.append(d)
        d = copy.deepcopy(doc)
        o = at(d, p)
        o[1].append(copy.deepcopy(o[1][i]))
        out.append(d)
        vs = list(others)
        if k in gen_index.U:
            m = gen_index.U[k]
            vs += [gen_index.I(m), gen_index.I(m + 1), gen_index.I(0), gen_index.I(2 ** 64), gen_index.I(2 ** 63), gen_index.I(-2 ** 63), gen_index.I(-m - 1), gen_index.I(2 ** 32), gen_index.I(2 ** 16), gen_index.I(256)]
        if k == 'version':
            vs += [gen_index.S(s) for s in ('', '1!2!3', '1+2+3', 'a!1', '32768!1', '-32768!1', '+', '!', '1!', '\u00e9', '1.2.3+a.b')]
        for v in vs:
            # (an array in place of a record or of the whole document is read by position: not part of the property)
            if v[0] == 'arr' and at(doc, p + [i])[0] == 'obj' and k not in ('packages', 'packages.conda'):
                continue
            d = copy.deepcopy(doc)
            at(d, p)[1][i][1] = v
            out.append(d)
    return out


def gen_c21(g, files):
    d = D(g)
    cmds = []
    for i in range(g.n(170)):
        doc = d.doc()
        spoilt = g.chance(0.25)
        if spoilt:
            doc = d.fault(doc)
        if i % 60 == 7:
            doc, spoilt = d.wide(entries=g.pick([60, 130]), depends=g.pick([0, 130]), removed=g.pick([0, 130]), unknown=g.pick([0, 60])), False
        docs, paths = [doc], [files.put(Writer().write(doc))]
        for _ in range(4 if i % 60 != 7 else 2):
            t = d.twin(doc, spoilt or g.chance(0.5)) if well(doc) else doc
            docs.append(t)
            paths.append(files.put(Writer(g, g.pick([0, 0.2, 0.6]), g.pick([0, 0.1, 0.5, 1.0])).write(t)))
        cmds.append({'c': 'present', 'x': {'docs': docs}, 'paths': paths})
    return cmds


# ---- shown forms ---------------------------------------------------------------------------------------------

def shownt(s):
    return {'c': 'show', 't': cp(s)}


def gen_c26(g, files, model_strings=()):
    e = E(g)
    cmds = []
    for f in model_strings:
        cmds.append(shownt(''.join(g.pick(LEAFS[:14]) if x == 'T' else x for x in f)))
    for t in CORE + epoch_texts(g)[::3]:
        cmds.append(shownt(t))
        cmds.append(shownt(g.pick(['1.', '2!', '1+', '']) + t + g.pick(['', '.1', 'a', '!1'])))
    for _ in range(g.n(450)):
        cmds.append(shownt(g.version(epoch=0.25, local=0.3)))
        cmds.append(shownt(odd_ok(g)))
        cmds.append(shownt(e.t.anyterm()))
    for a, s in nice_exprs(g, g.n(200)):
        cmds.append(shownt(s))
        cmds.append(shownt(e.spoil(s)))
    for _ in range(g.n(60)):
        for t in g.longs(4):
            cmds.append(shownt(t))
    for c in big_exprs(g, ''):
        if len(c['t']) < 700:
            cmds.append({'c': 'show', 't': c['t']})
    # components given by a reader of the caller's
    for _ in range(g.n(160)):
        parts = []
        for _ in range(g.r.choice([0, 1, 2, 2, 3, 5, 9, 17])):
            x = g.r.randrange(9)
            parts.append(['E', [g.pick([0, 1, -1, 32767, -32768, g.r.randrange(-32768, 32768)])]] if x == 0 else ['I', cp(str(g.pick([0, 1, 10, 2 ** 31 - 1, g.r.randrange(2 ** 31)])).lstrip('0'))] if x < 3 else
                         ['L', cp(g.recase(g.clean(g.local())))] if x < 5 else ['T', cp(g.recase(g.tag()))] if x < 8 else ['Z', []])
        cmds.append({'c': 'show', 't': cp(g.version()), 'p': parts})
    # messages: malformed texts made of the messages, and long ones
    heads = ['x!', '!', '1!2!', '1+2+', '=', '==', '>', '<=', '~', '!=x!', '^', '(', ')', '|', '1,', ',1', '1*(', '^(', '(1', '~=*.*', '<x!', '1!2!3*', 'x!*']
    for p in g.phrases:
        for h in [g.pick(heads) for _ in range(3)] + ['> ']:
            cmds.append(shownt(h + p))
            cmds.append(shownt(h + ' ' + p.strip() + g.pick(['', ' ', '$', '|', ')', '.*'])))
    for k in [40, 64, 80, 100, 120, 128, 160, 200, 255, 256, 300] + g.dlens[:16]:
        for c in ('a', '1', ' ', '\u00e9', '\u20ac', '\U0001f600', 'a\u00e9', '.'):
            h = g.pick(heads)
            cmds.append(shownt(h + (c * k)[:k] + g.pick(['', '!', '+', '$', '(', '!1'])))
            cmds.append(shownt(g.pick(['', 'a', 'ab', 'abc']) + c * (k // len(c.encode()) + 1) + g.pick(['!1', '!', '+a+b', '(', '|'])))
    few = ['1', '1.0', '<2', '^1$', '1.*', '1.a', '>=1', 'a"b', 'a\\b', '1!2', '+l', 'é', '^[(]$', "x'y", '\x7f1', '1\t2']

    def small(d):
        if d <= 0 or g.chance(0.3):
            return ('t', g.pick(few) if g.chance(0.7) else e.goodterm())
        return (g.pick(['And', 'Or', 'None']), [small(d - 1) for _ in range(g.r.choice([0, 1, 1, 2, 2, 2, 3, 5]))])
    for _ in range(g.n(320)):
        cmds.append({'c': 'showtree', 'a': hand(small(g.r.choice([1, 2, 3, 4])))})
    d = D(g)
    for _ in range(g.n(40)):
        doc = d.doc()
        doc = d.fault(doc) if g.chance(0.5) else doc
        cmds.append({'c': 'showindex', 'path': files.put(Writer(g, 0.1, 0.1).write(doc))})
    text = Writer().write(d.doc(1)).encode()
    for t in [text[:i] for i in range(0, len(text), max(1, len(text) // 30))] + [text + b'x', b'', b'\xff', b'[' * 50000, text.replace(b'"', b'"\xff', 1)]:
        cmds.append({'c': 'showindex', 'path': files.put(t)})
    for p in ['', os.path.join(files.dir, 'absent'), files.dir, 'a\0b']:
        cmds.append({'c': 'showindex', 'path': p})
    return cmds


# ---- selecting -----------------------------------------------------------------------------------------------

FILENAMES = [b'r.json', b'repodata', b'repodata.json.bz2', b'repodata.json.gz', b'repodata.json.zst', b'current_repodata.JSON', b'a b.json', 'é中😀.json'.encode(), b'\xff\xfe.json', b'-r.json',
             b'~', b'%41.json', b'file:r.json', b'r.json ', b' r.json', b'r\n.json', b'"r".json', b"'", b'\\', b'.json', b'...', b'*', b'?', b'$HOME', b'x' * 255, b'r.toml', b'r.xml', b'r.yaml', b'r.json~', b'#r#', b'r.json.tmp', b'\x80']


def once_each(v):
    """No key twice in any object."""
    return all(once_each(x) for k, x in v[1]) and len({tuple(k) for k, x in v[1]}) == len(v[1]) if v[0] == 'obj' else all(map(once_each, v[1])) if v[0] == 'arr' else True


def within(v, d=0):
    """As far as a parsed value goes: not nested too deeply, numbers within range."""
    k = v[0]
    return d < 100 and (all(within(x, d + 1) for _, x in v[1]) if k == 'obj' else all(within(x, d + 1) for x in v[1]) if k == 'arr' else
                        k not in ('deep', 'frac') and not (k == 'int' and len(v[2]) > 18))


def records(v):
    return [e for k, s in v[1] if uncp(k) in ('packages', 'packages.conda') and s[0] == 'obj' for _, e in s[1]] if v[0] == 'obj' else []


def ways(g, files, plans, doc, data=None, extra=None, style=None):
    w = style or Writer(g, g.pick([0, 0.1]), g.pick([0, 0.2]))
    # a document that is cut is none: nothing may follow its last brace
    data = data if data is not None else w.write(doc).rstrip(' \t\r\n').encode()
    recs = [x for x in records(doc) if x[0] == 'obj']
    recs = g.r.sample(recs, min(len(recs), 4))
    return {'c': 'ways', 'path': files.put(data), 'n': 6, 'plans': [g.pick(plans) for _ in range(3)] if plans and doc[0] == 'obj' and len(data) > 50 else [], 'names': [list(x) for x in g.r.sample(FILENAMES, 2)], 'link': g.chance(0.5),
            'value': once_each(doc) and within(doc) and doc[0] != 'null', 'extra': cp(extra or g.pick(['x', '{}', ',', ']', '}', '0'])),
            'recs': recs, 'rectexts': [cp(w.write(x)) for x in recs]}


def gen_c29(g, files, plans=()):
    d = D(g)
    cmds = []
    for _ in range(g.n(200)):
        doc = d.doc()
        cmds.append(ways(g, files, plans, doc if g.chance(0.7) else d.fault(doc)))
    for _ in range(g.n(8)):
        cmds.append(ways(g, files, plans, d.wide(entries=g.longsize(150), depends=g.longsize(150), removed=g.longsize(150), unknown=g.longsize(60))))
    for _ in range(g.n(40)):
        # cut off, or followed by something
        doc = d.doc(1)
        t = Writer(g, 0.1, 0.1).write(doc).rstrip(' \t\r\n').encode()
        try:
            s = t[:g.r.randrange(len(t))]
            s.decode()
        except UnicodeDecodeError:
            continue
        cmds.append(ways(g, files, [], NODOC, data=g.pick([s, s, t + b'x', t + b' {}', b'', b' '])))
    for x in ['\ufeff', '\x00', '\xa0', '\u2003', '\x1a', '\x0b', '\x85', '\u200b', '#\n', '//\n', '\x1e', '\x0c', '\ufffe', '\u2028', ' ', '\n', '\r', '\t', '\r\n\r\n']:
        t = Writer(g, 0.1, 0.1).write(d.doc(1)).rstrip(' \t\r\n')
        for s in (x + t, t + x, x + t + x, '\n' + x + t, t + x + '\n'):
            cmds.append(ways(g, files, [], NODOC, data=s.encode()))
    return cmds


def gen_c30(g, plans=()):
    t, e = T(g), E(g)
    anyterm = lambda: g.pick([lambda: t.rel()[0], lambda: t.wild()[0], lambda: t.globtext()[0], t.attext, lambda: '^%s$' % g.num(), lambda: '*', lambda: '==' + g.ver_ok(), g.ver_ok, lambda: g.pick(LEAFS)])()
    cmds = []
    for _ in range(g.n(1300)):
        p = g.pick(plans)
        if p['kind'] == 'term':
            s = anyterm()
            cs = ['1', '1.2', g.ver_ok()] + ([s] if g.ok(s) else [])
        else:
            s = e.write(e.ast(g.r.choice([0, 0, 1, 2, 3])), g.pick([0, 0.3]), g.pick([0, 0.2])) if g.chance(0.7) else g.pick(['(%s)', '%s', ' %s ', '((%s))']) % g.pick(['==1.2', '1', '1@2', '^1$', '1,2', '1|2'])
            cs = ['1', '1.2', g.ver_ok()]
        if '~=' not in s:
            cmds.append({'c': 'conv', 't': cp(s), 'kind': p['kind'], 'ops': p['ops'], 'cands': [cp(c) for c in cs]})
    for x in ['', ',', '|', ' ,', ', ', ',,', '||', '|,', ',|', '&', 'and', 'or', 'And', 'Or', ';', '(', ')', '\u060c', '\uff0c', '\uff5c', '\u00a6', '\u2223', ',\n', '\t|', '\x00,', ',\x00', '.', '!', '+', 'None', 'none', '1', '^', '\u201a', '\ufe50'] + [chr(c) for c in range(128)]:
        cmds.append({'c': 'comb', 't': cp(x)})
    for _ in range(g.n(900)):
        a = anyterm()
        b = g.pick([lambda: a, lambda: a.upper(), lambda: a.lower(), lambda: a + '.0', lambda: a + ' ', lambda: ' ' + a, lambda: g.respell(a), lambda: g.mutate(a), lambda: '==' + a, lambda: a.replace('==', ''), lambda: a + '.*', lambda: a + '*', lambda: a.replace('.', '_'), lambda: a + '\x00',
                    anyterm])()
        cmds.append({'c': 'eqterm', 'a': cp(a), 'b': cp(b)})
    return cmds


def near(g, vs):
    """A term about one of the given versions."""
    for _ in range(50):
        v = g.pick(vs)
        v = g.mutant(v) if g.chance(0.3) else g.respell(v) if g.chance(0.3) else v
        if not stem_ok(v) or any(c in v for c in '()|,^$') or not g.ok(v):
            continue
        x = g.r.random()
        t = g.pick(['<', '<=', '>', '>=', '==', '!=', '']) + v + g.pick(['', '', '', '.*']) if x < 0.6 else g.pick(['=%s', '%s.*', '%s*', '!=%s.*', '=%s.*']) % v if x < 0.85 else \
            v + '@' if x < 0.88 else '*' + v[1:] + '' if len(v) > 2 and x < 0.94 else '^' + re.escape(v) + '$'
        if terms_of(t) == [t] and not any(c in t[:1] + t[-1:] for c in ' \t\n') and ('^' != t[0] or t.isascii()):
            return t
    return g.pick(['>=1', '<2', '*', '1.*'])


def select(g, doc, files, n=6):
    """Constraints over the versions of a document."""
    vs = [uncp(f[1][1]) for k, v in doc[1] if uncp(k) in ('packages', 'packages.conda') for r in v[1] for f in r[1][1] if uncp(f[0]) == 'version'] or ['1']
    e = E(g, leaf=lambda: near(g, vs))
    xs = []
    for _ in range(n):
        x = e.write(e.ast(g.r.choice([0, 0, 1, 1, 2])), g.pick([0, 0.2]), 0.1)
        xs.append(x if len(x) < 300 else near(g, vs))
    return {'c': 'select', 'path': files.put(Writer(g, g.pick([0, 0.2]), g.pick([0, 0.1, 0.5])).write(doc)), 'exprs': [cp(x) for x in dict.fromkeys(xs)]}


def gen_c27(g, files):
    d = D(g)
    cmds = []

    def given(vs):
        """A document with these versions, in two sections."""
        doc = d.doc(0)
        cut = g.r.randrange(len(vs) + 1)
        for k, v in doc[1]:
            own = vs[:cut] if uncp(k) == 'packages' else vs[cut:] if uncp(k) == 'packages.conda' else None
            if own is None:
                continue
            for i, t in enumerate(own):
                r = d.record()
                for f in r[1]:
                    if uncp(f[0]) == 'version':
                        f[1] = gen_index.S(t)
                v[1].append([cp(g.pick(['p-%d-0.tar.bz2', '%d', 'a%dé', 'p-%d-0.conda']) % g.r.randrange(10 ** 6)), r])
        return doc
    for _ in range(g.n(110)):
        x = g.r.random()
        vs = g.pool(g.r.choice([3, 6, 9, 11])) if x < 0.6 else g.longs(9) if x < 0.75 else g.r.sample(CORE, 11) if x < 0.9 or not g.corpus()[0] else g.r.sample(g.corpus()[0], 11)
        # equal ones under several names
        vs += [t for t in (g.respell(g.pick(vs)) for _ in range(3)) if g.ok(t)]
        cmds.append(select(g, given(vs), files))
    for _ in range(g.n(30)):
        cmds.append(select(g, given([odd_ok(g) for _ in range(9)]), files))
    for _ in range(g.n(15)):
        cmds.append(select(g, d.doc(), files))
    return cmds


def dual(a):
    if a[0] == 't':
        o, v = a[1]
        return ('t', ({'==': '!=', '': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[o], v))
    return ('Or' if a[0] == 'And' else 'And', [dual(x) for x in a[1]])


def spelled(g, a):
    """The terms as texts: '.*' after an ordering is no wildcard, and '==' may be left out."""
    if a[0] == 't':
        o, v = a[1]
        if o == '==' and g.chance(0.4) and terms_of(v) == [v] and v[0] not in '^' and '@' not in v:
            return ('t', v)
        return ('t', (o or '==') + v + (g.pick(['', '', '.*']) if o != '!=' else ''))
    return (a[0], [spelled(g, x) for x in a[1]])


def sets(g, a, ts):
    e = E(g)
    if a[0] == 't':
        return {'c': 'sets', 'ts': [cp(t) for t in ts], 't': cp(spelled(g, a)[1]), 'd': cp(spelled(g, dual(a))[1])}
    return {'c': 'sets', 'ts': [cp(t) for t in ts], 't': cp(e.write(spelled(g, a), g.pick([0, 0.2]), 0.1)), 'd': cp(e.write(spelled(g, dual(a)), g.pick([0, 0.2]), 0.1))}


def from_left(r, x):
    """A behaviour of the model of selection: a constraint and its dual, each term joined to all before it."""
    s = d = ''
    for (c, o, v), u in zip(x['w'], x['d']):
        o, v, u = uncp(o), uncp(v), uncp(u)
        s = o + v if not s else '(%s)%s%s' % (s, ',' if c == 'And' else '|', o + v)
        d = u + v if not d else '(%s)%s%s' % (d, '|' if c == 'And' else ',', u + v)
    own = [v for c, o, v in x['w']]
    ts = own + [t for t in r.sample(x['ts'], min(len(x['ts']), 12)) if t not in own]
    return {'c': 'sets', 'ts': [list(t) for t in dict.fromkeys(map(tuple, ts))], 't': cp(s), 'd': cp(d)}


def gen_c28(g):
    cmds = []
    leaf_ok = lambda v: stem_ok(v) and not any(c in v for c in '()|,^$') and g.ok(v)
    for _ in range(g.n(420)):
        x = g.r.random()
        ts = g.pool(g.r.choice([6, 10, 14])) if x < 0.55 else g.longs(10) if x < 0.7 else g.r.sample(CORE, 14) if x < 0.85 else [odd_ok(g) for _ in range(6)] + g.pool(5)
        ts += [t for t in (g.respell(g.pick(ts)) for _ in range(4)) if g.ok(t)]
        vs = [v for v in ts + [g.mutant(t) for t in ts[:4]] if leaf_ok(v)] or ['1', '1.0']
        ops = g.pick([['<', '<=', '>', '>='], ['<', '<=', '>', '>=', '==', '!='], ['==', '!='], ['>=', '<']])

        def tree(d):
            if d <= 0 or g.chance(0.2):
                return ('t', (g.pick(ops), g.pick(vs)))
            return (g.pick(['And', 'Or']) if g.chance(0.7) else 'And', [tree(d - 1) for _ in range(g.r.choice([2, 2, 2, 3, 4]))])
        a = tree(g.r.choice([0, 1, 1, 2, 3])) if g.chance(0.7) else ('And', [('t', (g.pick(ops), g.pick(vs))) for _ in range(g.r.choice([2, 3, 5, 8]))])
        cmds.append(sets(g, a, list(dict.fromkeys(ts))))
    return [c for c in cmds if len(c['t']) < 1500]


# ---- sessions ------------------------------------------------------------------------------------------------

def session(files, x, vs, cs, lanes):
    """The slot of a 'put' call is a file of the lane's own."""
    n = files.slot()
    ls = [[[c[0], os.path.join(files.dir, 'slot-%d-%d' % (n, i)), c[2]] if c[0] == 'put' else c for c in ln] for i, ln in enumerate(lanes)]
    return {'c': 'session', 'x': x, 'vs': [cp(v) for v in vs], 'cs': [cp(c) for c in cs], 'lanes': ls}


def moved(c, pv, pc):
    """A call on the objects' new places."""
    v, k = pv.index, pc.index
    if c[0] in ('cmp', 'cstr', 'pc', 'eq', 'sw', 'op', 'opt'):
        return [c[0], v(c[1]), v(c[2])] + c[3:]
    if c[0] in ('m', 'mt'):
        return [c[0], k(c[1]), v(c[2])]
    if c[0] == 'burst':
        f, h = (v, v) if c[1] != 'm' else (v, k) if c[4] == 0 else (k, v)
        return c[:2] + [[f(i) for i in c[2]], h(c[3])] + c[4:]
    if c[0] == 'nest':
        return c[:2] + [v(c[2]) if c[1] < 4 else c[2], [moved(x, pv, pc) for x in c[3]]]
    if c[0] in ('read', 'dump'):
        return [c[0], v(c[1])]
    if c[0] == 'badop':
        return c[:2] + [v(c[2]), k(c[3])]
    if c[0] in ('term', 'expr', 'tree', 'render', 'spec', 'debug', 'exact'):
        return [c[0], k(c[1])]
    if c[0] == 'ceq':
        return [c[0], k(c[1]), k(c[2])]
    return c


CALLS2 = ['cmp', 'cstr', 'pc', 'eq', 'sw']


def termok(t):
    """An accepted term (of the kinds used here)."""
    v = t.lstrip('=<')
    return t[0] == '^' or '@' in t or '*' in t.rstrip('*') or stem_ok(v.rstrip('*').rstrip('.')) and v.count('!') + v.count('+') < 2


def gen_c22(g, files, plans=()):
    """Sessions: the same calls in different orders, in between other calls, on shared objects, in several threads.
    `plans` are behaviours of the session model: sequences of (thread, call)."""
    d = D(g)
    e = E(g)
    cmds = []
    paths = [files.put(Writer(g, 0.2, 0.1).write(x)) for x in [d.doc() for _ in range(4)] + [d.fault(d.doc()) for _ in range(3)]] + [os.path.join(files.dir, 'absent')]
    rounds = [[], [], [], []]
    usable = lambda t: len(t) < 200 and ('|' in t or ',' in t or '(' in t or terms_of(t) == [t])
    for s in range(g.n(14)):
        vs = g.pool(g.r.choice([4, 5, 6]))
        for v in vs[:4]:
            # texts that are easily taken for one another
            t = g.pick([v.swapcase(), v.upper(), v.lower(), v + ' ', ' ' + v, v.replace('.', '-'), v + '.', v + '.0', '0' + v, v + '+l', v + '+L', v[:-1], v + v[-1:], v.replace('.', '.0')])
            if g.ok(t) and t not in vs:
                vs.append(t)
        if g.ok(vs[0]) and '+' not in vs[0] and g.chance(0.7):
            vs += [x for x in (vs[0] + '+ab', vs[0] + '+AB') if x not in vs]
        cs = []
        while len(cs) < 6:
            t = e.write(e.ast(g.r.choice([0, 1, 2])), 0.1, 0.1) if g.chance(0.6) else g.pick([e.t.wild()[0], e.t.globtext()[0], e.t.attext(), e.t.rel()[0], '^1.*$', '*'])
            if len(t) < 200 and ('|' in t or ',' in t or '(' in t or terms_of(t) == [t]):
                cs.append(t)
        for t in cs[:3] + ['%d.%d' % (g.r.randrange(3), s)]:
            t = g.pick([t.swapcase(), t.replace('.', '-'), t.replace('1', '2'), t + '0', '(' + t + ')', t.replace(',', '|'), t.replace('<', '>'), '==' + t if t[:1].isdigit() else t])
            if usable(t) and t not in cs:
                cs.append(t)
        # terms that are easily taken for one another
        a, b = g.num(), g.num()
        a = a if len(a) < 6 else '3'
        fam = g.pick([['^%s.*$', '^ %s.*$', '^%s.* $', '^%s .*$', '^%s.+$', '^%s.*.$', '^.*%s$', '^(%s.*)$'], ['%s.*', '%s*', '=%s', '%s*0', '%s', '==%s', '!=%s.*', '*%s'], ['%s@', '%sA@', '%sa@', '@%s', '%s.0@'],
                      ['<%s', '<=%s', '>%s', '>=%s', '!=%s', '<%s.0', '<%s.a', '<%s.A'], ['^[a%s]$', '^[A%s]$', '^A%s$', '^a%s$', '^\\d%s$', '^\\D%s$'], ['%s+a', '%s+A', '%s+a.*', '=%s+A', '<%s+a', '<%s+A']])
        cs += [x % a for x in g.r.sample(fam, 4) if x % a not in cs]
        vs += [x for x in (a, a + '.0', a + 'a', a + 'A', a + '+A', a + '+a', a + ' ', 'a' + a, 'A' + a) if x not in vs and g.chance(0.6)]
        w = g.pick(['rc', 'a', 'Beta', '1a', '1.0B', 'x']) + g.num()[:5]
        alike = [x % y for x in g.r.sample(['^%s$', '^%s.*$', '%s@', '*%s*x', '*%s', '^(%s)$', '==%s', '<%s', '%s+L', '^%s?$', '^%s+$', '%s*.0'], 3) for y in g.r.sample([w, w.swapcase(), w.upper(), w + '0', w[1:] + w[:1], w[::-1]], 3)]
        alike = [x for x in dict.fromkeys(alike) if terms_of(x) == [x] and x not in cs and termok(x)]
        cs += alike
        vs += [x for x in dict.fromkeys([w, w.swapcase(), w.upper(), w + '0', w + '@', w.swapcase() + '@', w + '+l', w + '+L']) if x not in vs and g.ok(x)]
        bad = ['1!2!3', '==', '(1', '1,,2', '^1', 'x!1', '1+2+3', '()', '<>1', '((1,2)']

        def call():
            x = g.r.random()
            i, j, k, l = (g.r.randrange(len(vs)), g.r.randrange(len(vs)), g.r.randrange(len(cs)), g.r.randrange(len(cs)))
            if x < 0.2:
                return [g.pick(CALLS2), i, j]
            if x < 0.35:
                return [g.pick(['op', 'opt']), i, j, g.r.randrange(8)]
            if x < 0.5:
                return [g.pick(['m', 'mt']), k, i]
            if x < 0.65:
                return [g.pick(['read', 'dump']), i]
            if x < 0.7:
                return ['term', k]
            if x < 0.8:
                return [g.pick(['expr', 'tree']), k]
            if x < 0.88:
                return [g.pick(['render', 'spec', 'debug', 'exact']), k]
            if x < 0.91:
                return ['ceq', k, l]
            if x < 0.94:
                return ['bad', g.pick(bad)]
            if x < 0.96:
                return ['badop', g.pick(['1!2!3', 'x!1', '1+2+3', '99999!1', '!', '++']), i, k]
            return ['load', g.pick(paths)] if g.chance(0.4) else ['put', 0, g.pick(paths[:-1])]
        # texts of one length
        ln = g.pick([3, 8, 10, 12, 16, 24])
        same = ['%d.%s' % (1 + k % 3, ('%0' + str(ln) + 'd') % g.r.randrange(30)) for k in range(4)] + ['2.' + 'ab'[k % 2] * (ln - 1) + str(k) for k in range(2)]
        vs += [x for x in dict.fromkeys(same) if x not in vs]
        nv, nc = len(vs), len(cs)
        slots = [vs.index(x) for x in dict.fromkeys(same)]

        def burst():
            op = g.pick(['cmp', 'cmp', 'sw', 'eq', 'm', 'm'])
            mode = g.r.randrange(3)
            if op == 'm' and mode:
                return ['burst', op, [g.r.randrange(nc) for _ in range(8)], g.r.randrange(nv), mode]
            return ['burst', op, [g.pick(slots) if g.chance(0.8) else g.r.randrange(nv) for _ in range(8)], g.r.randrange(nc) if op == 'm' else g.pick(slots) if g.chance(0.6) else g.r.randrange(nv), mode]
        def nest(d=0):
            how = g.pick([0, 0, 0, 1, 1, 2, 3, 3, 4, 5])
            ins = [nest(d + 1) if d < 3 and g.chance(0.25) else burst() if g.chance(0.15) else call() for _ in range(g.r.randrange(1, 5))]
            return ['nest', how, g.r.randrange(nv) if how < 4 else g.pick(paths[:-1]), [c for c in ins if c[0] not in ('put',)]]
        first = [[op, k, i] for k in range(len(cs)) if cs[k] in alike for i in range(len(vs)) if w[1:].lower() in vs[i].lower() for op in ('m', 'mt')]
        first = g.r.sample(first, min(len(first), 40))
        base = first + [burst() for _ in range(14)] + [nest() for _ in range(14)] + [call() for _ in range(g.n(60, 4))] + [['dump', i] for i in range(len(vs))] + [['tree', i] for i in range(len(cs))]
        lanes4 = [g.r.sample(base, len(base)) for _ in range(g.r.choice([2, 4, 8]))]
        for n, lanes in enumerate(([base], [base[::-1]], [g.r.sample(base, len(base))], lanes4)):
            # the objects are made in another order, too, and each variant runs in a process of its own
            pv, pc = list(range(len(vs))), list(range(len(cs)))
            if n == 1:
                pv, pc = pv[::-1], pc[::-1]
            elif n > 1:
                g.r.shuffle(pv)
                g.r.shuffle(pc)
            rounds[n].append(session(files, s, [vs[i] for i in pv], [cs[i] for i in pc], [[moved(c, pv, pc) for c in ln] for ln in lanes]))
    # many different objects, then the first ones again
    for n in range(g.n(2)):
        k = 260
        vs = list(dict.fromkeys(g.ver_ok(k=g.pick([1, 2, 3]), local=0.1) for _ in range(k)))
        cs = [t for t in dict.fromkeys(g.pick([e.t.rel()[0], e.t.wild()[0], '^' + g.num() + g.pick(['.*', 'a', '.+', '\\.\\d']) + '$', e.t.globtext()[0]]) for _ in range(k)) if len(t) < 60 and terms_of(t) == [t]]
        calls = [['read', i] for i in range(len(vs))] + [['term', i] for i in range(len(cs))] + [['mt', i, i % len(vs)] for i in range(len(cs))] + [['cmp', i, (i + 1) % len(vs)] for i in range(len(vs))]
        rounds[0].append(session(files, 'f%d' % n, vs, cs, [calls + calls]))
        rounds[1].append(session(files, 'f%d' % n, vs, cs, [calls[::-1] + g.r.sample(calls, len(calls))]))
    # the same thing very often, and very many different things, in between other calls
    lits = [n + 3 for n in g.ints if 200 < n < 70000][:3]
    for n in range(g.n(2)):
        vs = g.pool(5)
        cs = ['%s@' % vs[0].replace('@', ''), '^1.*$', '1.*', '<2|>3', '*1*2']
        calls = [[op, i, j] for op in CALLS2 for i in range(3) for j in range(3)] + [['m', k, i] for k in range(len(cs)) for i in range(3)] + [['read', i] for i in range(3)] + [['term', i] for i in range(3)] + [['expr', 3]]
        for k, kind in enumerate(('read', 'term', 'wild', 'regex', 'expr')):
            size = {'read': 4200, 'term': 2100, 'wild': 2100, 'regex': 520, 'expr': 600}[kind]
            often = [['many', g.pick(calls[:45]), x] for x in [66000] + lits] + [['many', g.pick(calls[45:]), 1100]]
            # and texts that are refused, nested ones too
            fails = ['(' * 199 + '1', '(1|(2,' * 60, '1|' * 99, '((1,2)', '(1', '^1', 'x!1', '1+2+3', '==', '(((!)))', '1,,2', '^($', '(^1$', '~=1.*', '1 (2', '()']
            for t in g.r.sample(fails[:4], 1) + g.r.sample(fails, 2):
                often.append(['many', ['bad', t], 900 if len(t) > 90 else 40000 if '!' in t or '+' in t or t in '(==()1,,2' else 9000])
            sw = ['sweep', kind, g.pick([size, size, 300, 1100]), g.pick(['1', '2.0', '7a', '3!1'])]
            # and defective indexes, a sound one afterwards
            often.append(['many', ['load', g.pick(paths[4:])], 300])
            rounds[0].append(session(files, 'w%d%d' % (n, k), vs, cs, [calls + [['load', paths[k % 4]], sw] + often + calls + [['load', paths[k % 4]]]]))
    cmds += rounds[0] + rounds[1][::-1] + g.r.sample(rounds[2], len(rounds[2])) + rounds[3]
    nested = [p for p in plans if isinstance(p, dict)]
    for i in range(0, len(nested), 25):
        # calls inside calls, as the model nests them
        vs, cs = g.pool(4), ['<2|>3', '^1.*$', '1.*']
        how = {'parse': [0, 1], 'fail': [2], 'panic': [3], 'load': [4, 5]}
        lane = []
        for p in nested[i:i + 25]:
            stack = [lane]
            for k, a in p['log']:
                if k == 'end':
                    stack.pop()
                    continue
                if k == 'ask':
                    c = g.pick([['cmp', a, 1 - a], ['cstr', a, 1 - a], ['read', a], ['m', a, a], ['mt', a, 1 - a], ['expr', a], ['term', 1 + a], ['badop', 'x!1', a, a], ['opt', a, 1 - a, 2]])
                else:
                    c = ['nest', g.pick(how[k]), paths[a] if k == 'load' else a, []]
                stack[-1].append(c)
                stack.append(c[3] if k != 'ask' else None)
        cmds.append(session(files, 'n', vs, cs, [lane]))
        cmds.append(session(files, 'n', vs, cs, [lane[::-1], lane]))
    for p in plans:
        if isinstance(p, dict):
            continue
        # registers of the model, filled with concrete objects
        vs = g.pool(4)
        cs = []
        while len(cs) < 3:
            t = e.write(e.ast(1), 0.1, 0.1)
            if len(t) < 150 and (len(terms_of(t)) > 1):
                cs.append(t)
        tr = {'cmp': lambda a, b: ['cmp', a, b], 'sw': lambda a, b: ['sw', a, b], 'match': lambda a, b: ['m', a % 3, b], 'matcht': lambda a, b: ['mt', a % 3, b], 'read': lambda a, b: ['read', a],
              'dump': lambda a, b: ['dump', a], 'render': lambda a, b: ['render', a % 3], 'expr': lambda a, b: ['expr', a % 3], 'load': lambda a, b: ['load', paths[(a + b) % len(paths)]],
              'bad': lambda a, b: ['bad', ['1!2!3', '==', '(1', '1,,2'][(a + b) % 4]],
              'tcmp': lambda a, b: ['burst', 'cmp', [a, (a + 1) % 3, a], b, (a + b) % 3], 'tmatch': lambda a, b: ['burst', 'm', [a % 3, (a + 1) % 3], b, (a + b) % 3]}
        lanes = {}
        for th, op, a, b in p:
            lanes.setdefault(th, []).append(tr[op](a, b))
        ln = list(lanes.values())
        cmds.append(session(files, 'p', vs, cs, ln))
        cmds.append(session(files, 'p', vs, cs, [[c for l in ln for c in l]]))
    return cmds
