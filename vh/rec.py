"""Recording events from the real code for TLC.

Everything written is an int (|v| < 2^31), a bool, a string, a list or a record,
so that TLC's JSON reader and 32-bit integers can take it."""
import json
import math

NAN = 2147483647          # "not a finite number"
BIG = 2000000000


def I(x, scale=1.0):
    """round(scale * x) as an int TLC can hold; NAN for nan/inf/None/non-numbers"""
    try:
        v = float(x) * scale
    except Exception:
        return NAN
    if not math.isfinite(v):
        return NAN
    v = int(round(v))
    return max(-BIG, min(BIG, v))


def L(x):
    """micro-nepers: round(1e6 ln x); zero and negative values have no logarithm"""
    try:
        v = float(x)
    except Exception:
        return NAN
    if not math.isfinite(v) or v <= 0:
        return NAN
    return int(round(1e6 * math.log(v)))


class Interner(object):
    """exact-equality identities: equal values share a small int"""

    def __init__(self):
        self._d = {}

    def __call__(self, v):
        import numpy as np
        if isinstance(v, np.generic):
            v = v.item()
        if isinstance(v, float) and v != v:
            v = 'nan'
        return self._d.setdefault(v, len(self._d) + 1)


def clean(v):
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return max(-NAN, min(NAN, int(v)))
    if isinstance(v, str):
        return v
    if isinstance(v, dict):
        return {str(k): clean(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    if isinstance(v, np.ndarray):
        return [clean(x) for x in v.tolist()]
    if v is None:
        return 'none'
    raise TypeError('cannot record %r' % (v,))


class Recorder(object):

    def __init__(self):
        self.events = []
        self.notes = {}          # line -> human-readable context for a replay file

    def emit(self, op, _note=None, **fields):
        e = {'op': op}
        e.update({k: clean(v) for k, v in fields.items()})
        self.events.append(e)
        if _note is not None:
            self.notes[len(self.events)] = _note
        return len(self.events)

    def write(self, path):
        with open(path, 'w') as f:
            for e in self.events:
                f.write(json.dumps(e) + '\n')


def attempt(fn, *args, **kwargs):
    """(outcome, value): the outcome is 'ok' or the name of the exception class"""
    try:
        return 'ok', fn(*args, **kwargs)
    except Exception as e:      # noqa
        return type(e).__name__, e
