"""Common parts of the drivers, which execute histories on the real code."""
import contextlib
import json
import math
import os
import signal
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
import gpmp  # noqa: E402
import gpmp.num as gnp  # noqa: E402

if not os.path.realpath(gpmp.__file__).startswith("/repo/"):
    sys.exit("gpmp is not imported from /repo: " + gpmp.__file__)

BACKEND = os.environ["GPMP_BACKEND"]
if gpmp.config.get_backend() != BACKEND:
    sys.exit("backend mismatch")

MAXMIS = 25


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout("no answer within the time allowed")


signal.signal(signal.SIGALRM, _alarm)


@contextlib.contextmanager
def time_limit(seconds):
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Err:
    """An exception raised by the code under test, as a value."""

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<raises {type(self.e).__name__}: {str(self.e)[:200]}>"


def attempt(f, *a, **k):
    """Call the code under test; exceptions become `Err` values."""
    try:
        return f(*a, **k)
    except Timeout:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # ParticlesSetError derives from BaseException
        return Err(e)


def is_err(v):
    return isinstance(v, Err)


def tonp(v):
    """Backend value to a numpy array (no gpmp code involved)."""
    if isinstance(v, Err):
        return v
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    return np.asarray(v)


def tolist(v):
    v = tonp(v)
    return v if isinstance(v, Err) else v.tolist()


def arr(v, dtype=float):
    """A fresh backend array built without gpmp."""
    a = np.array(v, dtype=dtype)
    if BACKEND == "torch":
        import torch
        return torch.tensor(a)
    return a


def rat(p):
    """A [num, den] pair of the specification as a float."""
    return p[0] / p[1]


def rats(v):
    """Nested lists of [num, den] pairs -> nested floats (pairs are ints)."""
    if isinstance(v, list) and len(v) == 2 and all(isinstance(t, int) for t in v):
        return v[0] / v[1]
    return [rats(t) for t in v]


def close(a, b, rtol=1e-8, atol=1e-9):
    """Same shape and values up to rounding; nan matches nan only."""
    a, b = tonp(a), tonp(b)
    if isinstance(a, Err) or isinstance(b, Err):
        return False
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    try:
        a = a.astype(float)
        b = b.astype(float)
    except (TypeError, ValueError):
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


class Recorder:
    def __init__(self):
        with open(sys.argv[1]) as f:
            d = json.load(f)
        self.seed, self.tier, self.payload = d["seed"], d["tier"], d["payload"]
        self.scratch = d["scratch"]
        self.rng = np.random.default_rng(abs(self.seed) + 12345)
        self.evaluations = 0
        self.traces = 0
        self.mismatches = []
        self.samples = []
        self.extra = {}
        sys.excepthook = self._stopped
        with contextlib.suppress(Exception):
            gnp.set_seed(abs(self.seed) % 10**6 + 77)

    def _stopped(self, kind, exc, tb):
        """A call outside `each` that stops the driver is a result too, unless something could not be imported."""
        txt = "".join(traceback.format_exception(kind, exc, tb))
        print(txt, file=sys.stderr)
        if not isinstance(exc, (ImportError, SyntaxError, KeyboardInterrupt, MemoryError)):
            self.bad("result has the expected form", "a usable result", txt[-1500:])
            self.done()
            sys.stderr.flush()
            os._exit(0)

    def bad(self, what, expected, observed, **ctx):
        if len(self.mismatches) < MAXMIS:
            self.mismatches.append({
                "what": what, "expected": _short(expected), "observed": _short(observed),
                "context": {k: _short(v) for k, v in ctx.items()}})
        return False

    def eq(self, what, observed, expected, **ctx):
        self.evaluations += 1
        if is_err(observed) or observed != expected:
            return self.bad(what, expected, observed, **ctx)
        return True

    def close(self, what, observed, expected, rtol=1e-8, atol=1e-9, **ctx):
        self.evaluations += 1
        if not close(observed, expected, rtol, atol):
            return self.bad(what, tolist(expected), _short(observed), **ctx)
        return True

    def true(self, what, cond, observed=None, **ctx):
        self.evaluations += 1
        if not cond:
            return self.bad(what, True, observed, **ctx)
        return True

    def raises(self, what, observed, **ctx):
        self.evaluations += 1
        if not is_err(observed):
            return self.bad(what, "an exception", observed, **ctx)
        return True

    def each(self, cases, f, limit=20.0):
        """Run `f(case)` for each case under a watchdog."""
        for c in cases:
            self.traces += 1
            if len(self.samples) < 2:
                self.samples.append(_short(c, 600))
            try:
                with time_limit(limit):
                    f(c)
            except Timeout:
                self.bad("call terminates", f"an answer within {limit}s", "no answer", case=c)
            except Exception:
                self.bad("result has the expected form", "a usable result",
                         traceback.format_exc()[-1500:], case=c)
            if len(self.mismatches) >= MAXMIS:
                break

    def done(self):
        out = {"evaluations": self.evaluations, "traces": self.traces,
               "mismatches": self.mismatches, "samples": self.samples}
        out.update(self.extra)
        with open(sys.argv[2], "w") as f:
            json.dump(out, f)


def _short(v, n=1500):
    if isinstance(v, (int, float, bool, type(None))):
        return v if not isinstance(v, float) or math.isfinite(v) else str(v)
    if not isinstance(v, str):
        v = tonp(v).tolist() if hasattr(v, "shape") else v
        try:
            v = json.dumps(v)
        except (TypeError, ValueError):
            v = repr(v)
    return v if len(v) <= n else v[:n] + "..."
