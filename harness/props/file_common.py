"""Reading and writing files independently of the code."""
import contextlib
import io
import numpy as np
from core import farr, fx, fxs, fxn, short
from props.pp_common import model_def
from props.field_common import opt, _copies, _same


def toks(s):
    return [fx(float(x)) for x in s.split()]


def shc_lines(text, comment=('#',)):
    """Lines of a file for the specification; intact if all tokens are numbers."""
    out, intact = [], True
    for ln in text.splitlines():
        s = ln.strip()
        c = next((m for m in comment if s.startswith(m)), '')
        try:
            tk = [] if c else toks(s)
        except ValueError:
            tk, intact = [], False
        out.append(dict(c=c, tok=tk))
    return out, intact


def read(path):
    with open(path) as f:
        return f.read()


def write(path, text):
    with open(path, 'w') as f:
        f.write(text)


def shc_text(rng, times_dyear, co, nmin, nmax, order, comment='#', digits=8, comments=True):
    """An SHC file written by the harness, with comment lines anywhere."""
    rows, i = [], 0
    for n in range(nmin, nmax + 1):
        for m in range(n + 1):
            for s in ((1, -1) if m else (1,)):
                rows.append('%d %d ' % (n, s * m) + ' '.join('%.*f' % (digits, v) for v in co[:, i]))
                i += 1
    lines = ['%d %d %d %d %d' % (nmin, nmax, len(times_dyear), order, order - 1),
             '   ' + '  '.join('%.*f' % (digits, t) for t in times_dyear)] + rows
    if comments:
        pos = [0, 0, 1, 2, len(lines)] + rng.integers(0, len(lines), 3).tolist()
        for k, p in enumerate(sorted(pos, reverse=True)):
            lines.insert(p, ['%s comment 1 2 3', '   %s 7 8', '%s', '%s1 3 5 2 1'][k % 4] % comment)
    return '\n'.join(lines) + '\n'


def spline_model(rng, order, pieces, dim, start=None, amp=100.):
    """Breaks and coefficients c[k][p][d] of a random spline (smooth at the breaks)."""
    import scipy.interpolate as sip
    start = float(rng.integers(-4000, 8000)) + (rng.uniform() if rng.random() < .5 else 0.) if start is None else start
    br = start + np.concatenate(([0.], np.cumsum(rng.uniform(60, 500, pieces))))
    if rng.random() < .3:
        br = np.round(br)
    kn = np.concatenate((np.repeat(br[0], order - 1), br, np.repeat(br[-1], order - 1)))
    c = rng.normal(size=(pieces + order - 1, dim)) * amp
    k = order - 1
    parts = [sip.PPoly.from_spline(sip.BSpline(kn, c[:, d], k)) for d in range(dim)]
    x = parts[0].x
    keep = np.flatnonzero(np.diff(x) > 0)
    return br, np.stack([p.c[:, keep] for p in parts], axis=-1)


class Sink:
    def __enter__(self):
        self.buf = io.StringIO()
        self.cm = contextlib.redirect_stdout(self.buf)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        return self.cm.__exit__(*a)

    @property
    def text(self):
        return self.buf.getvalue()
