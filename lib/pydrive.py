"""Runs inside the system Python with the freshly built extension on its path: executes commands on the
version class and prints one JSON line per command."""
import sys, json, ctypes
from ronda import RustyVersion as R


def enc(s):
    return [ord(c) for c in s]


def make(t):
    # calling the class directly crashes in the 2019 cpython crate on this interpreter, whatever the text is
    try:
        return R.__new__(R, t), 'ok'
    except ValueError:
        return None, 'ValueError'
    except BaseException as e:
        return None, type(e).__name__


def tf(f):
    try:
        x = f()
        return 'T' if x is True else 'F' if x is False else repr(x)
    except BaseException as e:
        return type(e).__name__


for line in sys.stdin:
    c = json.loads(line)
    a, b = ''.join(map(chr, c['a'])), ''.join(map(chr, c['b']))
    (x, sx), (y, sy) = make(a), make(b)
    out = [sx, sy]
    if x is not None and y is not None:
        for u, v in ((x, y), (y, x), (x, x)):
            out += [tf(lambda: u == v), tf(lambda: u != v), tf(lambda: u < v), tf(lambda: u <= v), tf(lambda: u > v), tf(lambda: u >= v), tf(lambda: u.startswith(v))]
    for z in (x, y):
        if z is not None:
            try:
                out.append(json.dumps(enc(repr(z))))
            except BaseException as e:
                out.append(type(e).__name__)
    print(json.dumps(out), flush=True)
