"""A form of a pickle in which only the order and numbering of its parts is lost."""
import hashlib, pickletools

_GET = {'GET', 'BINGET', 'LONG_BINGET'}
_DROP = {'PUT', 'BINPUT', 'LONG_BINPUT', 'MEMOIZE', 'FRAME'}


def norm(data):
    """multiset of the opcodes with their arguments (of all pickles in data), as a hash; the memo's numbering does not count"""
    out = {}
    pos = 0
    import io
    f = io.BytesIO(data)
    while f.tell() < len(data):
        for op, arg, at in pickletools.genops(f):
            if op.name in _DROP:
                continue
            k = 'GET' if op.name in _GET else '%s %r' % (op.name, arg)
            out[k] = out.get(k, 0) + 1
    return hashlib.sha256(repr(sorted(out.items())).encode()).hexdigest()[:20]


def sha(data):
    return hashlib.sha256(data).hexdigest()[:20]


def explain(a, b):
    """what differs between two pickles' multisets"""
    def ms(data):
        import io
        out, f = {}, io.BytesIO(data)
        while f.tell() < len(data):
            for op, arg, at in pickletools.genops(f):
                if op.name not in _DROP:
                    k = 'GET' if op.name in _GET else '%s %s' % (op.name, repr(arg)[:60])
                    out[k] = out.get(k, 0) + 1
        return out
    x, y = ms(a), ms(b)
    less = ['%s x%d' % (k, x[k] - y.get(k, 0)) for k in x if x[k] > y.get(k, 0)]
    more = ['%s x%d' % (k, y[k] - x.get(k, 0)) for k in y if y[k] > x.get(k, 0)]
    return 'lost %s; gained %s' % (', '.join(less[:6]) or 'nothing', ', '.join(more[:6]) or 'nothing')
