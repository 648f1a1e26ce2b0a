#!/usr/bin/env python3
"""What do the laws depend on? Records events of the code, alters one observed value at a time, and asks the
specification. Prints per property and field how many of the altered events are rejected.

    tools/binding.py [Cxx ...]        (writes .build/binding.json)"""
import copy, json, os, random, re, shutil, subprocess, sys, tempfile, collections
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import infra, checks, pycheck
from gen import G

# what the event says about the call, not about the answer
PROPS = ['C%02d' % i for i in list(range(1, 22)) + [23, 25, 26, 27, 28]]


def arg(prop, kind, path):
    k = path[0]
    if k in ('e', 't', 'a', 'b', 'a2', 'b2', 'ts', 'items', 'given', 'texts', 'exprs', 'o', 'x', 'doc', 'file', 'path', 'err'):
        return kind != 'sets' or k not in ('a', 'b')
    return (k == 'terms' and (kind != 'expr' or path[-1] == 't' or 't' in path)) or (k == 'cands' and 't' in path[1:]) or (kind == 'sets' and k == 'd') or (kind == 'made' and k == 'vs')


def is_text(x):
    return isinstance(x, list) and all(isinstance(c, int) and not isinstance(c, bool) for c in x) and len(x) > 0


def places(x, path=()):
    """Paths of values that can be altered, with an altered value."""
    if isinstance(x, bool):
        yield path, not x
    elif isinstance(x, int):
        yield path, (1 if x == -1 else -1 if x == 1 else 0) if x in (-1, 1) else x + 1
        if x == 0:
            yield path, -1
    elif isinstance(x, str):
        alt = {'T': 'F', 'F': 'T', 'ok': 'err', 'err': 'ok'}.get(x)
        yield path, alt or x + '_'
        if x in ('T', 'F'):
            yield path, 'P'
        if x in ('ok', 'err'):
            yield path, 'panic'
    elif is_text(x) and (len(x) > 3 or any(c > 8 for c in x)):
        yield path, x[:-1]
        yield path, x + [x[-1]]
        yield path, [x[0] ^ 1] + x[1:]
    elif isinstance(x, list):
        if x:
            yield path, x[:-1]
        if len(x) > 1 and x[0] != x[1]:
            yield path, [x[1], x[0]] + x[2:]
        for i, y in enumerate(x):
            yield from places(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from places(y, path + (k,))


def put(x, path, v):
    x = copy.deepcopy(x)
    y = x
    for p in path[:-1]:
        y = y[p]
    y[path[-1]] = v
    return x


def verdicts(prop, events, tmp):
    out, at = {}, 0
    while at < len(events):
        d = infra.stage(tmp)
        path = os.path.join(tmp, 'b.ndjson')
        with open(path, 'w') as f:
            for e in events[at:]:
                f.write(json.dumps(e) + '\n')
        cfg = 'Binding_%s.cfg' % prop
        open(os.path.join(d, cfg), 'w').write('SPECIFICATION BindingSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Prop = "%s"\n  Known = {}\n' % prop)
        meta = tempfile.mkdtemp(dir=tmp)
        r = subprocess.run(infra.java() + ['-config', cfg, '-workers', '1', '-metadir', meta, '-noGenerateSpecTE', 'Binding.tla'], cwd=d, env=dict(os.environ, TRACE=path), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        shutil.rmtree(meta, ignore_errors=True)
        n = 0
        for i, v in re.findall(r'<<"VERDICT", (\d+), (TRUE|FALSE)>>', r.stdout):
            out[at + int(i) - 1] = v == 'TRUE'
            n = int(i)
        if n == len(events) - at:
            break
        if '"GENERATOR"' in r.stdout:
            out[at + n] = None
        elif 'Attempted to' in r.stdout or 'evaluating' in r.stdout or 'Error' in r.stdout:
            out[at + n] = False
        at += n + 1
    return out


def main():
    props = sys.argv[1:] or PROPS
    res = {}
    for prop in props:
        tmp = tempfile.mkdtemp(prefix='binding-')
        try:
            g = G(1, prop, 'quick')
            r = random.Random(5)
            binary = infra.build_harness()
            if prop == 'C23':
                cmds = r.sample(pycheck.gen_c23(g), 60)
                pairs, _ = pycheck.events(binary, g, tmp, cmds)
            else:
                args = [g] + ([checks.IndexFiles(tmp)] if prop in ('C19', 'C20', 'C21', 'C26', 'C27') else [])
                cmds = checks.dedup(getattr(checks, 'gen_' + prop.lower())(*args))
                by = collections.defaultdict(list)
                for c in cmds:
                    if len(json.dumps(c)) < 6000:
                        by[c['c']].append(c)
                cmds = [c for k in sorted(by) for c in r.sample(by[k], min(len(by[k]), 160))]
                pairs, _ = infra.run_commands(binary, cmds, tmp, 20)
            pool = collections.defaultdict(list)
            for c, e in pairs:
                if e['e'] in ('abort', 'skip'):
                    continue
                for path, v in places(e):
                    if not arg(prop, e['e'], path):
                        f = e['e'] + '.' + '.'.join(str(p) for p in path if not isinstance(p, int))
                        pool[f].append((e, path, v))
            evs, names = [], []
            for f in sorted(pool):
                for e, path, v in r.sample(pool[f], min(len(pool[f]), 25)):
                    evs.append(put(e, path, v))
                    names.append(f)
            ver = verdicts(prop, evs, tmp)
            t = collections.defaultdict(lambda: [0, 0])
            for i, f in enumerate(names):
                if ver.get(i) is not None:
                    t[f][0] += 1
                    t[f][1] += not ver[i]
            res[prop] = {f: v for f, v in t.items()}
            print(prop, sum(v[1] for v in t.values()), 'of', sum(v[0] for v in t.values()), '|', ' '.join('%s %d/%d' % (f, v[1], v[0]) for f, v in sorted(t.items())), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(infra.BUILD, exist_ok=True)
    json.dump(res, open(os.path.join(infra.BUILD, 'binding.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
