"""C23: the Python class against the Rust library."""
import json, os, subprocess, tempfile
import infra
from gen import cp, uncp
import checks

PY = '/usr/bin/python3'


def gen_c23(g):
    cmds = []
    for a in checks.CORE[:40]:
        for b in g.r.sample(checks.CORE, 6):
            cmds.append((a, b))
    for _ in range(g.n(1500)):
        cmds.append(g.related())
    for _ in range(g.n(200)):
        cmds.append((checks.odd_ok(g), checks.odd_ok(g)))
    for _ in range(g.n(500)):
        s = g.version(epoch=0.4, local=0.4)
        i = g.r.randrange(len(s) + 1)
        s = s[:i] + g.pick(['!', '+', '!', '!!', '++', '!+', 'é!', '\x00', '']) + s[i:]
        cmds.append((s, g.ver_ok()))
    for _ in range(g.n(120)):
        cmds.append(tuple(g.longpair()))
    for e in checks.epoch_texts(g)[::7]:
        cmds.append((e + '!1', '1'))
    return [{'c': 'pair', 'a': cp(a), 'b': cp(b), 'w': 'cmp rel sw'} for a, b in cmds]


def want(e):
    st = {'ok': 'ok', 'err': 'ValueError', 'panic': 'ValueError'}
    out = [st[e['ra']], st[e['rb']]]
    if 'ab' in e:
        import copy
        for o in (e['ab'], e['ba'], e['aa']):
            # (a version starts with itself)
            out += o['rel'] + [o.get('sw', 'T')]
    for k, r in (('a', 'ra'), ('b', 'rb')):
        if e[r] == 'ok':
            out.append(json.dumps(e[k]))
    return out


def run_python(scratch, cmds, tmp):
    env = {'PYTHONPATH': scratch, 'PATH': '/usr/bin:/bin', 'PYTHONDONTWRITEBYTECODE': '1'}
    out = []
    i = 0
    crashes = 0
    while i < len(cmds):
        data = ''.join(json.dumps(c) + '\n' for c in cmds[i:])
        r = subprocess.run([PY, os.path.join(infra.VERIF, 'lib', 'pydrive.py')], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=tmp, timeout=600)
        lines = [x for x in r.stdout.split('\n') if x]
        if not lines and r.returncode == 1:
            raise infra.ToolError('python driver: ' + r.stderr[-1500:])
        out += [json.loads(x) for x in lines]
        i += len(lines)
        if i < len(cmds):
            crashes += 1
            out.append(['terminated with %s' % r.returncode])
            i += 1
            if crashes > 5:
                break
    return out


def events(binary, g, tmp, cmds=None):
    cmds = cmds if cmds is not None else gen_c23(g)
    scratch = tempfile.mkdtemp(dir=tmp)
    infra.build_python(scratch)
    ev, ns = infra.run_commands(binary, cmds, tmp)
    got = run_python(scratch, cmds, tmp)
    out = []
    for (c, e), p in zip(ev, got):
        if e['e'] == 'abort':
            continue
        out.append((c, {'e': 'py', 'a': c['a'], 'b': c['b'], 'want': want(e), 'got': p}))
    return out, ns + 1
