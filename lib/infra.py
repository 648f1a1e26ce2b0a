"""Building the harness, running commands on it, running TLC."""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil, resource, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
CPUS = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def cargo_env(target):
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', ''),
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
             CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=target, RUSTC_WRAPPER='')
    e['RUSTFLAGS'] = '--cfg ronda_verif -Awarnings'
    return e


def build_harness():
    """Build the probe against /repo's current working tree."""
    target = os.path.join(BUILD, 'target')
    os.makedirs(target, exist_ok=True)
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'harness'),
                       env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError('harness build failed:\n' + r.stdout[-4000:])
    return os.path.join(target, 'debug', 'rondaprobe')


def build_python(scratch):
    """Build the Python extension from /repo and lay out a package for the system interpreter."""
    target = os.path.join(BUILD, 'pytarget')
    os.makedirs(target, exist_ok=True)
    env = cargo_env(target)
    env['RUSTFLAGS'] = '-Awarnings'
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--locked', '--manifest-path', os.path.join(REPO, 'python', 'Cargo.toml')],
                       cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError('python extension build failed:\n' + r.stdout[-4000:])
    pkg = os.path.join(scratch, 'ronda')
    os.makedirs(pkg)
    so = [f for f in os.listdir(os.path.join(target, 'debug')) if f.startswith('lib') and f.endswith('.so')]
    if len(so) != 1:
        raise ToolError('python extension not found: %r' % so)
    shutil.copy(os.path.join(target, 'debug', so[0]), os.path.join(pkg, '_ronda.so'))
    src = os.path.join(REPO, 'python', 'ronda', '__init__.py')
    if os.path.exists(src):
        shutil.copy(src, pkg)
    return scratch


# ---- running commands on the harness ----------------------------------------------------------

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_session(binary, cmds, tmp, idle=40):
    """Run commands in one process, one event per command. A command that kills or hangs the process
    gives an 'abort' event, and the rest continues in a new process."""
    events = []
    i = 0
    aborts = 0
    while i < len(cmds):
        fd, path = tempfile.mkstemp(dir=tmp, suffix='.cmd')
        with os.fdopen(fd, 'w') as f:
            for c in cmds[i:]:
                f.write(json.dumps(c) + '\n')
        p = subprocess.Popen([binary], stdin=open(path), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             preexec_fn=_limits, cwd=tmp)
        last = [time.time()]
        hung = [False]
        stop = threading.Event()

        def watch():
            while not stop.wait(0.5):
                if time.time() - last[0] > idle:
                    hung[0] = True
                    p.kill()
                    return
        w = threading.Thread(target=watch, daemon=True)
        w.start()
        n = 0
        for line in p.stdout:
            last[0] = time.time()
            if not line.endswith(b'\n'):
                break
            events.append(json.loads(line))
            n += 1
        p.wait()
        stop.set()
        os.unlink(path)
        i += n
        if i < len(cmds):
            aborts += 1
            events.append({'e': 'abort', 'why': 'hang' if hung[0] else 'exit %s' % p.returncode})
            i += 1
            if aborts > 5:           # enough: the rest is not needed to decide
                return events
    return events


def run_commands(binary, cmds, tmp, per_session=150):
    """Distribute commands over sessions (processes); returns [(cmd, event)] in order, number of sessions."""
    chunks = [cmds[i:i + per_session] for i in range(0, len(cmds), per_session)]
    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(lambda c: run_session(binary, c, tmp), chunks))
    out = []
    for c, r in zip(chunks, res):
        out += list(zip(c, r))
    for c, e in out:
        if e['e'] == 'harness-panic':
            raise ToolError('harness: %s on %s' % (e, json.dumps(c)[:600]))
    return out, len(chunks)


# ---- TLC ----------------------------------------------------------------------------------------

def java(extra_heap='3g', gc='Serial'):
    return ['java', '-XX:+Use%sGC' % gc, '-XX:TieredStopAtLevel=4', '-Xmx' + extra_heap, '-Xss256m', '-cp',
            TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tlc2.TLC']


STAGE = threading.Lock()


def stage(tmp):
    """A private copy of the specification, so that TLC leaves nothing behind."""
    d = os.path.join(tmp, 'spec')
    with STAGE:
      if not os.path.isdir(d):
        shutil.copytree(SPEC, d, ignore=shutil.ignore_patterns('states', '*_TTrace_*'))
    return d


def _stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(name, tmp, workers=CPUS, timeout=600, constants=None, invariants=None, properties=None, simulate=None, heap='6g'):
    """Exhaustive check of spec/<name>.tla (or, with simulate=(number, depth, seed), of random behaviours of it);
    returns statistics and what the model printed, raises on any failure. The result does not depend on the
    code under test, so a failure is a fault of the machinery."""
    d = stage(tmp)
    cfgname = name + '.cfg'
    text = open(os.path.join(d, cfgname)).read()
    for k, v in (constants or {}).items():
        text, n = re.subn(r'(?m)^(\s*%s\s*)(=|<-).*$' % re.escape(k), lambda m: m.group(1) + ('<- ' + v[2:] if str(v).startswith('<-') else '= ' + str(v)), text)
        if n != 1:
            raise ToolError('no constant %s in %s' % (k, cfgname))
    if invariants is not None:
        text = re.sub(r'(?ms)^INVARIANTS.*?(?=^[A-Z]{5,})', ('INVARIANTS ' + ' '.join(invariants) + '\n') if invariants else '', text)
    if properties is not None:
        text = re.sub(r'(?m)^PROPERTY.*$', ('PROPERTY ' + ' '.join(properties)) if properties else '', text)
    cfgname = name + '_%s.cfg' % hashlib.md5(text.encode()).hexdigest()[:6]
    open(os.path.join(d, cfgname), 'w').write(text)
    meta = tempfile.mkdtemp(dir=tmp)
    t0 = time.time()
    how = ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(simulate[2])] if simulate else []
    try:
        r = subprocess.run(java(heap, 'Parallel' if workers > 1 else 'Serial') + ['-config', cfgname, '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE'] + how + [name + '.tla'],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timeout on %s' % name)
    shutil.rmtree(meta, ignore_errors=True)
    if simulate:
        ok = r.returncode == 0 and 'Error:' not in r.stdout
        m = re.search(r'(?:generated|checked)[^0-9]*([\d,]+) states', r.stdout) or re.search(r'number of states generated: ([\d,]+)', r.stdout)
        g = s = int(m.group(1).replace(',', '')) if m else 0
    else:
        ok = r.returncode == 0 and 'No error has been found' in r.stdout
        g, s = _stats(r.stdout)
    if not ok:
        raise ToolError('model check of %s failed:\n%s' % (name, r.stdout[-5000:]))
    printed = [json.loads(json.loads(x)) for x in r.stdout.split('\n') if x.startswith('"{')]
    return {'model': name, 'config': dict({k: str(v) for k, v in (constants or {}).items()}, **({'simulate': str(simulate)} if simulate else {}),
                                          **({'checked': ' '.join((invariants or []) + (properties or []))} if invariants is not None else {})),
            'transitions': g, 'states': s, 'wall_s': round(time.time() - t0, 1), 'printed': printed}


def prove(name, tmp, timeout=900):
    """Have TLAPS check the proofs of spec/<name>.tla; returns the number of obligations proved."""
    d = os.path.join(tmp, 'proof')
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(SPEC, name + '.tla'), d)
    t0 = time.time()
    try:
        r = subprocess.run(['tlapm', '--cleanfp', '--threads', str(CPUS), '--stretch', '3', name + '.tla'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('tlapm timeout on %s' % name)
    m = re.search(r'All (\d+) obligations? proved', r.stdout)
    if r.returncode or not m:
        raise ToolError('proofs of %s failed:\n%s' % (name, r.stdout[-3000:]))
    return {'module': name, 'obligations': int(m.group(1)), 'wall_s': round(time.time() - t0, 1)}


def _trace_chunk(args):
    prop, known, events, tmp, k, timeout = args
    d = stage(tmp)
    path = os.path.join(tmp, 'trace_%s_%d.ndjson' % (prop, k))
    with open(path, 'w') as f:
        for e in events:
            f.write(json.dumps(e) + '\n')
    cfg = 'Trace_%s_%d.cfg' % (prop, k)
    with open(os.path.join(d, cfg), 'w') as f:
        f.write('SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Prop = "%s"\n  Known = {%s}\n'
                % (prop, ', '.join('"%s"' % x for x in sorted(known))))
    meta = tempfile.mkdtemp(dir=tmp)
    e = dict(os.environ)
    e['TRACE'] = path
    try:
        r = subprocess.run(java() + ['-config', cfg, '-workers', '1', '-metadir', meta, '-noGenerateSpecTE', 'Trace.tla'],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timeout on a trace of %d events' % len(events))
    shutil.rmtree(meta, ignore_errors=True)
    os.unlink(path)
    out = r.stdout
    g, s = _stats(out)
    devs = [int(x) for x in re.findall(r'<<"DEVIATION", (\d+)>>', out)]
    m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
    if '"GENERATOR"' in out:
        raise ToolError('generator mistake:\n' + out[-1500:])
    if m and 'Error:' not in out:
        n = int(m.group(1))
        if int(m.group(2)) != len(events):
            raise ToolError('trace length mismatch')
        return {'consumed': n, 'why': 'no action of the specification explains the event' if n < len(events) else None,
                'deviations': devs, 'states': s, 'transitions': g}
    if 'Attempted to' in out or 'evaluating' in out:
        # an observed value outside the type the specification gives it
        ls = re.findall(r'^/\\ l = (\d+)', out, re.M) or re.findall(r'^l = (\d+)', out, re.M)
        if ls:
            why = re.search(r'(Attempted to[^\n]*)', out)
            return {'consumed': int(ls[-1]) - 1, 'why': 'ill-typed observation: ' + (why.group(1) if why else ''),
                    'deviations': devs, 'states': s, 'transitions': g}
    raise ToolError('TLC failed on a trace:\n' + out[-5000:])


def weight(e):
    return len(json.dumps(e))


def validate(prop, known, events, tmp, timeout=800, cost=None, keep_order=False):
    """Validate recorded events against the specification. Returns statistics and the indexes of rejected events."""
    k = 1 if keep_order else min(CPUS, max(1, len(events) // 40))
    # balance the chunks by estimated cost
    w = [(cost or weight)(e) for e in events]
    order = sorted(range(len(events)), key=lambda i: -w[i]) if not keep_order else list(range(len(events)))
    buckets = [[] for _ in range(k)]
    load = [0] * k
    for i in order:
        b = load.index(min(load))
        buckets[b].append(i)
        load[b] += w[i] + 200
    for b in buckets:
        b.sort()
    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(_trace_chunk, [(prop, known, [events[i] for i in b], tmp, j, timeout) for j, b in enumerate(buckets)]))
    bad, devs = [], []
    st = tr = 0
    consumed = traces = 0
    for b, r in zip(buckets, res):
        st += r['states']
        tr += r['transitions']
        consumed += r['consumed']
        devs += [b[x - 1] for x in r['deviations']]
        traces += 0 if r['why'] else 1
        if r['why']:
            bad.append((b[r['consumed']], r['why']))
    return {'states': st, 'transitions': tr, 'consumed': consumed, 'traces': traces, 'bad': sorted(bad), 'deviations': devs}
