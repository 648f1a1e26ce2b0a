"""The models checked for each property, and the behaviours taken from them.

Each entry runs TLC twice at most: once over a large configuration with the invariants that belong to the property,
once over a smaller one whose behaviours are printed and replayed against the code."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import infra
from infra import model_check, prove, CPUS
from gen import uncp

ASSUMPTIONS = {
    '*': ['the specification modules (spec/*.tla) say what the code is meant to do; TLC and the Java runtime are trusted',
          'the probe (harness/) reports what the library returned; it is built from /repo with --cfg ronda_verif',
          'inputs outside the generated ones and the exhausted finite configurations are not explored'],
    'C06': ['Unicode case folding up to Unicode 12.1; texts whose letters fold to three characters only in this check'],
    'C13': ['the regular expressions generated use literals, classes, groups, alternatives, repetition and anchors'],
    'C14': ['stack exhaustion is looked for up to 400 levels of nesting and lists of 400 terms'],
    'C20': ['arrays in place of records are read by position by the JSON library and not generated'],
    'C22': ['threads are scheduled by the operating system; the orders of calls inside a thread and the calls themselves come from the model'],
    'C23': ['the interpreter at /usr/bin/python3'],
}

CHARS, LIMITS, FOREIGN = '<-Chars', '<-Limits', '<-Foreign'


class Runs:
    """Model checks started together; results in the order of the requests."""

    def __init__(self, tmp, thorough):
        self.tmp, self.thorough, self.jobs = tmp, thorough, []

    def add(self, name, **kw):
        self.jobs.append((name, kw))
        return len(self.jobs) - 1

    def check(self, name, constants=None, **kw):
        c = dict(constants or {})
        return self.add(name, constants=c, workers=kw.pop('workers', 4), timeout=kw.pop('timeout', 860 if not self.thorough else 5000), **kw)

    def emit(self, name, constants, cap_workers=1, **kw):
        c = dict(constants, Emit='TRUE')
        return self.add(name, constants=c, workers=1, invariants=['Emitted'], properties=[], timeout=860 if not self.thorough else 5000, **kw)

    def run(self):
        with ThreadPoolExecutor(3) as ex:
            self.res = list(ex.map(lambda j: model_check(j[0], self.tmp, **j[1]), self.jobs))
        return self.res


def world(e, w, l, k, block=16):
    return {'Epochs': '<-' + e, 'Words': '<-' + w, 'Locals': '<-' + l, 'K': k, 'Block': block}


def nob(c):
    return {k: v for k, v in c.items() if k != 'Block'}


def sample(r, xs, n):
    xs = list(xs)
    return xs if n is None or len(xs) <= n else [xs[i] for i in sorted(r.sample(range(len(xs)), n))]


def pairs_of(r, pools, n):
    out = []
    seen = set()
    for p in pools:
        ts = p['pool']
        for i in range(len(ts)):
            for j in range(i, len(ts)):
                k = (tuple(ts[i]), tuple(ts[j]))
                if k not in seen:
                    seen.add(k)
                    out.append((ts[i], ts[j]))
    return sample(r, out, n)


# the worlds of versions that belong to a property: (what TLC exhausts, what is dealt out to the code, laws)
W = {
    'C03': (world('E1', 'W5', 'L1', 2), world('E1', 'W7', 'L3', 2), ['Reflexive', 'Antisymmetric'], 'cmp rel'),
    'C04': (world('E1', 'W5', 'L1', 2), world('E1', 'W7', 'L1', 2), ['Reflexive', 'Transitive'], 'cmp'),
    'C05': (world('E0', 'WNum', 'L0', 2), world('E0', 'WNum', 'L0', 3), ['FirstDecides', 'NothingAfterMatters', 'ByValue'], 'cmp'),
    'C06': (world('E0', 'WTag', 'L0', 1), world('E0', 'WTag', 'L0', 2), ['Tags', 'CaseAside', 'FirstDecides'], 'cmp'),
    'C07': (world('E3', 'W4', 'L3', 1), world('E3', 'W5', 'L3', 2), ['EpochFirst', 'LocalAbove', 'LocalBelowNext'], 'cmp'),
    'C08': (world('E1', 'W5', 'L1', 2), world('E1', 'W7', 'L3', 2), ['Trichotomy', 'Complement', 'Mirror'], 'cmp sw ops'),
    'C10': (world('E1', 'W5', 'L1', 2), world('E1', 'W7', 'L1', 2), ['SwReflexive', 'SwTransitive', 'SwMutual', 'SwCuts', 'SwExtends'], 'sw'),
    'C25': (world('E1', 'W5', 'L1', 2), world('E1', 'W7', 'L1', 2), ['FirstDecides', 'SwCuts'], None),
    'C23': (world('E3', 'W5', 'L3', 1), world('E1', 'W7', 'L1', 2), ['Antisymmetric', 'SwReflexive'], 'cmp rel sw'),
}


def run(prop, tier, tmp):
    import checks
    th = tier == 'thorough'
    r = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    rs = Runs(tmp, th)
    cmds, strings, plans, docs = [], [], [], []
    n = lambda q, t=None: (t if th else q)
    emitted = lambda *ix: [x for i in ix for x in rs.res[i]['printed']]

    if prop in ('C01', 'C02'):
        rs.check('Scanner', {'N': n(5, 7), 'Tokens': CHARS}, heap='8g')
        rs.check('Scanner', {'N': n(4, 5), 'Tokens': LIMITS}, invariants=['AcceptsWellFormed', 'ReadsComponents', 'NothingLost', 'Shape'], properties=['RefusalIsFinal'])
        rs.check('Scanner', {'N': n(3, 5), 'Tokens': FOREIGN}, invariants=['AcceptsWellFormed', 'ReadsComponents', 'NothingLost', 'Shape'], properties=['RefusalIsFinal'])
        a = rs.emit('Scanner', {'N': n(5, 6) if prop == 'C01' else n(4, 5), 'Tokens': CHARS})
        b = rs.emit('Scanner', {'N': n(3, 4), 'Tokens': LIMITS})
        c = rs.emit('Scanner', {'N': n(3, 4), 'Tokens': FOREIGN})
        rs.run()
        for x in sample(r, emitted(a), n(9000 if prop == 'C01' else 1500, None)) + sample(r, emitted(b), n(1100, 20000)) + sample(r, emitted(c), n(1400, 20000)):
            cmds.append({'c': 'ver', 't': x['t'], 'w': 'ok'} if prop == 'C01' else {'c': 'ver', 't': x['t']})
    elif prop in W:
        small, big, laws, what = W[prop]
        w = big if th else small
        rs.check('OrderLaws', w, invariants=laws, heap='10g')
        if prop in ('C03', 'C04', 'C10'):
            rs.check('CompareLoop', nob(small))
            rs.check('CompareLoop', nob(world('E3', 'W9', 'L3', 1)))
        if prop == 'C06':
            rs.check('CompareLoop', nob(w))
        if prop == 'C04' or th and prop in ('C03', 'C05', 'C06', 'C10'):
            rs.check('ComponentOrder', {'Width': n(1, 2)})
        pools = rs.emit('OrderLaws', w)
        rs.run()
        ps = emitted(pools)
        if prop in ('C04', 'C05', 'C06', 'C07', 'C10'):
            cmds = [{'c': 'pool', 'ts': p['pool'], 'w': 'sw' if prop == 'C10' else 'cmp'} for p in sample(r, ps, n(30, 1200))]
        if prop == 'C25':
            for p in sample(r, ps, n(12, 600)):
                ts = p['pool'][:]
                r.shuffle(ts)       # the components of one version, the text of another
                cmds.append({'c': 'made', 'vs': [{'t': t, 'p': x} for t, x in zip(ts, p['parts'])], 'texts': sample(r, p['pool'], 6), 'terms': []})
        if prop not in ('C04', 'C25'):
            cmds += [{'c': 'pair', 'a': a, 'b': b, 'w': what} for a, b in pairs_of(r, ps, n(700, 20000))]
    elif prop == 'C09':
        for t, k in (('signs', n(5, 7)), ('words', n(3, 5)), ('edits', n(2, 3))):
            rs.check('Symbols', {'Typing': '"%s"' % t, 'N': k})
        a = [rs.emit('Symbols', {'Typing': '"%s"' % t, 'N': k}) for t, k in (('signs', n(4, 5)), ('words', n(3, 4)), ('edits', n(2, 2)))]
        rs.run()
        for i in a:
            cmds += [{'c': 'opread', 't': x['t']} for x in sample(r, rs.res[i]['printed'], n(1600, 30000))]
    elif prop in ('C11', 'C12', 'C14'):
        laws = {'C11': ['Agrees', 'Bounds', 'BoundsIgnoreStar', 'Exactness'], 'C12': ['Agrees', 'Wildcards'], 'C14': ['Agrees', 'Exactness']}[prop]
        rs.check('TermReader', {'N': n(4, 5)}, invariants=laws, heap='8g')
        a = rs.emit('TermReader', {'N': n(3, 4)})
        b = rs.emit('TermReader', {'N': n(4, 5), 'Alphabet': '{61, 33, 62, 49, 46, 42}'})
        rs.run()
        xs = emitted(a) + emitted(b)
        if prop == 'C11':
            xs = [x for x in xs if x['k'] == 'rel']
        if prop == 'C12':
            xs = [x for x in xs if x['k'] in ('pre', 'always')]
        for x in sample(r, xs, n(500 if prop != 'C14' else 1800, 20000)):
            cs = checks.SMALLC if prop != 'C14' else ['1', '1.1a']
            cmds.append(checks.term(uncp(x['t']), cs + ([uncp(x['v'])] if x['k'] in ('rel', 'pre') else []), uncp(x['v']) if x['k'] in ('rel', 'pre') else None))
        if prop == 'C14':
            t = rs.check  # (expressions: the reader of tokens)
    elif prop == 'C13':
        rs.check('Matcher', {'Depth': n(1, 2), 'N': n(3, 4), 'Globs': 'FALSE'}, heap='8g')
        rs.check('Matcher', {'Depth': n(1, 2), 'N': n(3, 3), 'Globs': 'TRUE'}, heap='8g')
        a = rs.emit('Matcher', {'Depth': n(1, 2), 'N': 0, 'Globs': 'FALSE'})
        a2 = rs.emit('Matcher', {'Depth': 2, 'N': 0, 'Globs': 'FALSE'}) if not th else None
        b = rs.emit('Matcher', {'Depth': 2, 'N': 0, 'Globs': 'TRUE'})
        rs.run()
        import gen
        texts = [s for s in gen.all_texts('a1.', 3)]
        xs = sample(r, emitted(a), n(120, None)) + (sample(r, emitted(a2), 130) if a2 is not None else [])
        for x in xs:
            cmds.append(checks.term(uncp(x['t']), sample(r, texts, n(22, None)), x={'ast': x['src']}))
        for x in sample(r, emitted(b), n(260, None)):
            cmds.append(checks.term(uncp(x['t']), sample(r, texts, n(22, None))))
    elif prop in ('C15', 'C16', 'C17', 'C18'):
        laws = {'C15': ['AcceptsGrammar', 'BuildsTree', 'Means', 'InOrder', 'Balance'], 'C16': ['AcceptsGrammar', 'RefusesOthers', 'Balance', 'Rises'],
                'C17': ['BuildsTree', 'RoundTrip', 'InOrder'], 'C18': ['BuildsTree', 'IsCanonical', 'Redundant', 'InOrder', 'Rises']}[prop]
        rs.check('TreeBuilder', {'N': n(7, 9), 'MaxTerms': n(4, 5)}, invariants=laws, heap='8g')
        a = rs.emit('TreeBuilder', {'N': n(5, 6) if prop == 'C16' else n(7, 9), 'MaxTerms': 4})
        if prop == 'C16':
            rs.check('Tokenizer', {'N': n(5, 7)})
            b = rs.emit('Tokenizer', {'N': n(4, 5)})
        rs.run()
        xs = [x for x in emitted(a) if prop == 'C16' or x['s'] == 'ok']
        xs = sample(r, xs, {'C15': n(260, 4000), 'C16': n(2600, 40000), 'C17': n(260, 4000), 'C18': n(260, 4000)}[prop])
        strings = [['T' if k[0] < 32 else chr(k[0]) for k in x['k']] for x in xs]
        if prop == 'C16':
            cmds = [checks.expr(uncp(x['t']), [], '') for x in sample(r, emitted(b), n(1500, None))]
    elif prop in ('C19', 'C20', 'C21'):
        laws = {'C19': ['Verdict', 'LoadedMeaning'], 'C20': ['Verdict', 'NoMending'], 'C21': ['LoadedMeaning', 'OrderAside']}[prop]
        rs.check('Loader', {'Level': '"root"', 'Faults': n(1, 2)}, invariants=laws)
        rs.check('Loader', {'Level': '"record"', 'Faults': n(1, 2)}, invariants=laws, heap='12g', workers=n(4, 8))
        rs.check('Loader', {'Level': '"section"', 'Faults': 0}, invariants=laws)
        a = rs.emit('Loader', {'Level': '"root"', 'Faults': 1})
        b = rs.emit('Loader', {'Level': '"record"', 'Faults': 1})
        c = rs.emit('Loader', {'Level': '"section"', 'Faults': 0})
        rs.run()
        for i, k in ((a, n(150, 3000)), (b, n(200, 6000)), (c, n(90, 600))):
            xs = rs.res[i]['printed']
            ok, err = [x for x in xs if x['s'] == 'ok'], [x for x in xs if x['s'] != 'ok']
            if prop != 'C20':
                docs += sample(r, ok, k // (2 if prop == 'C21' else 1))
            else:
                docs += sample(r, ok, k // 3) + sample(r, err, k)
    elif prop == 'C26':
        rs.check('Scanner', {'N': n(5, 6), 'Tokens': CHARS}, invariants=['ShowsFaithfully', 'ReadsComponents'], properties=[], heap='8g')
        rs.check('TreeBuilder', {'N': n(7, 9), 'MaxTerms': n(4, 5)}, invariants=['ShowsTree'], heap='8g')
        a = rs.emit('Scanner', {'N': 4, 'Tokens': CHARS})
        b = rs.emit('Scanner', {'N': n(3, 4), 'Tokens': LIMITS})
        c = rs.emit('Scanner', {'N': n(3, 4), 'Tokens': FOREIGN})
        t = rs.emit('TreeBuilder', {'N': n(7, 9), 'MaxTerms': 4})
        rs.run()
        for x in sample(r, emitted(a), n(900, None)) + sample(r, emitted(b), n(400, 12000)) + sample(r, emitted(c), n(500, 12000)):
            cmds.append({'c': 'show', 't': x['t']})
        strings = [['T' if k[0] < 32 else chr(k[0]) for k in x['k']] for x in sample(r, emitted(t), n(260, 4000))]
    elif prop == 'C27':
        rs.check('Loader', {'Level': '"section"', 'Faults': 0}, invariants=['LoadedMeaning'])
        rs.check('Selection', {'MaxTerms': 2, 'K': 2, 'Locals': n('<-L0', '<-L1')}, invariants=['Newest'], properties=[])
        a = rs.emit('Loader', {'Level': '"section"', 'Faults': 0})
        rs.run()
        docs = sample(r, [x for x in emitted(a) if x['s'] == 'ok'], n(60, 600))
    elif prop == 'C29':
        rs.check('Loader', {'Level': '"record"', 'Faults': n(0, 1)}, invariants=['Verdict', 'LoadedMeaning'])
        rs.check('Source', {'N': n(6, 9), 'Most': n(3, 5), 'Stops': n(2, 3)})
        a = rs.emit('Source', {'N': 6, 'Most': 3, 'Stops': 1})
        b = rs.emit('Loader', {'Level': '"record"', 'Faults': 1})
        c = rs.emit('Loader', {'Level': '"root"', 'Faults': 1})
        rs.run()
        plans = [x['plan'] for x in emitted(a)]
        docs = sample(r, emitted(b), n(120, 3000)) + sample(r, emitted(c), n(60, 1500))
    elif prop == 'C30':
        rs.check('Convert', {'N': n(5, 8)})
        a = rs.emit('Convert', {'N': n(4, 6)})
        rs.run()
        plans = [x for x in emitted(a)]
    elif prop == 'C28':
        rs.check('Selection', {'MaxTerms': 2, 'K': 2, 'Words': n('<-W4', '<-W5'), 'Locals': n('<-L0', '<-L1')}, heap='8g')
        rs.check('Selection', {'MaxTerms': n(3, 4), 'K': 1, 'Words': '<-W4', 'Locals': n('<-L0', '<-L0')}, heap='10g')
        a = rs.add('Selection', constants={'MaxTerms': 5, 'K': 2, 'Emit': 'TRUE'}, workers=1, invariants=['Emitted'], properties=[], timeout=800, simulate=(n(260, 3000), 6, r.randrange(1, 10 ** 6)))
        rs.run()
        cmds = [checks.from_left(r, x) for x in sample(r, rs.res[a]['printed'], n(900, 12000)) if all(v for c, o, v in x['w'])]
    elif prop == 'C22':
        rs.check('Session', {'Calls': 1}, heap='8g')
        if th:
            rs.check('Session', {'Calls': 2}, invariants=['SameAnswer', 'RightAnswer', 'Immutable', 'MadeOnce', 'NoDeadlock'], properties=[], heap='16g', workers=8)
        a = rs.add('Session', constants={'Threads': '{1, 2, 3}', 'Calls': 5, 'Emit': 'TRUE'}, workers=1, properties=[], timeout=800,
                   simulate=(n(40, 600), 140, r.randrange(1, 10 ** 6)))
        rs.check('Nesting', {'N': n(3, 4)})
        b = rs.emit('Nesting', {'N': n(3, 4)})
        rs.run()
        plans = [x['h'] for x in emitted(a)] + sample(r, emitted(b), n(150, 2000))
    else:
        rs.run()
    ms = [{k: v for k, v in m.items() if k != 'printed'} for m in rs.res]
    proofs = [prove('OrderProof', tmp)] if th and prop in ('C03', 'C04', 'C05', 'C10') else []
    return {'proofs': proofs, 'models': ms, 'strings': strings, 'plans': plans, 'cmds': cmds, 'docs': docs, 'behaviours': len(cmds) + len(strings) + len(plans) + len(docs)}
