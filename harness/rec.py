"""Calling the code under test and recording what it did, as integers."""
import contextlib, io, json, math, os, random, signal, sys, warnings

warnings.simplefilter('ignore')
S = 10000
LIM = 100 * S


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)
_sink = io.StringIO()
hangs = 0


def call(f, limit=6.):
    """('val', result), ('exc', exception name) or ('hang', None); what the code prints is dropped."""
    global hangs
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with contextlib.redirect_stdout(_sink):
            v = f()
        signal.setitimer(signal.ITIMER_REAL, 0)
        return 'val', v
    except Hang:
        hangs += 1
        return 'hang', None
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return 'exc', type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _sink.seek(0)
        _sink.truncate()


class Bad(Exception):
    """A result which is no finite number of sensible size, or has the wrong form."""


def fx(v, scale=S, lim=LIM):
    v = float(v)
    if math.isnan(v) or math.isinf(v):
        raise Bad('nan')
    n = round(v * scale)
    if abs(n) > lim:
        raise Bad('big')
    return n


def fxv(p, u=1., scale=S, lim=LIM):
    p = list(p)
    if len(p) != 2:
        raise Bad('form')
    return [fx(p[0] / u, scale, lim), fx(p[1] / u, scale, lim)]


def result(r, conv):
    """(kind, converted value) of the outcome of call()."""
    k, v = r
    if k != 'val':
        return k, []
    if v is None:
        return 'none', []
    try:
        return 'val', conv(v)
    except Bad as b:
        return str(b), []
    except Exception:
        return 'form', []


class Out:
    """Writer of traces, one JSON line each."""

    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0
        self.events = 0

    def trace(self, id, ev, **kw):
        self.f.write(json.dumps(dict(id=id, ev=ev, **kw), separators=(',', ':')) + '\n')
        self.f.flush()
        self.n += 1
        self.events += len(ev)
