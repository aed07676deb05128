"""
Core of the property-based checks: facets, the tracker that an oracle
reports to, sharded Hypothesis runs, replay files and evidence.

A *property check* is a list of facets. A facet is a strategy that
produces plain-data cases (anything `ast.literal_eval` can read back), and
an `evaluate(case, T)` function that exercises ndspy and compares what it
does against an oracle. Since cases are plain data, a failing case can be
written to a replay file and run again without Hypothesis.
"""
import ast
import contextlib
import hashlib
import json
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, settings
from hypothesis import strategies as st

VERIF = '/verif'
REPO_PKG = os.path.realpath('/repo/ndspy') + os.sep
CASE_CPU_LIMIT = 40  # seconds of CPU time; ordinary cases take milliseconds
MEM_LIMIT = 6 << 30
SHARDS = 8

try:  # keep shrinking well below the time a check may take
    from hypothesis.internal.conjecture import engine as _engine
    _engine.MAX_SHRINKING_SECONDS = 60
except Exception:
    pass


# Exceptions outside of the library that, once the library has been used, come
# from looking at objects or data that are not what they should be. Before
# that, and all others (OSError, timeouts, ...), they are errors of the check.
UNEXPECTED = (TypeError, AttributeError, ValueError, LookupError, ArithmeticError, struct.error)


class Violation(Exception):
    """The code under test did not do what the property demands."""


class HarnessError(Exception):
    """The check itself is at fault."""


class CaseTimeout(BaseException):
    """A case used far more CPU time than any case needs."""


class StateDependent(Exception):
    pass


def _has_repo_frame(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO_PKG):
            return True
        tb = tb.tb_next
    return False


def _short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    if len(s) > n:
        s = s[:n] + f'... ({len(s)} characters)'
    return s


class Tracker:
    """What an evaluate() function reports to."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self.known_hits = set()
        self.used = False   # whether the code under test has been used

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(_short(msg() if callable(msg) else msg, 2000))

    def eq(self, got, want, what):
        """got must equal want (compared structurally, see norm())."""
        g, w = norm(got), norm(want)
        if g != w:
            raise Violation(f'{what}: ' + diff(g, w))

    def same_bytes(self, got, want, what):
        if not isinstance(got, (bytes, bytearray)):
            raise Violation(f'{what}: expected bytes, got {_short(got, 100)}')
        if bytes(got) != bytes(want):
            raise Violation(f'{what}: ' + diff(bytes(got), bytes(want)))

    @contextlib.contextmanager
    def sut(self, what):
        """Everything that happens in here is the code under test's doing."""
        self.used = True
        try:
            yield
        except (Violation, HarnessError, MemoryError):
            raise
        except Exception as e:
            raise Violation(f'{what}: unexpected {type(e).__name__}: {_short(str(e), 300)}\n'
                            + _short(''.join(traceback.format_exc()), 3000)) from None

    @contextlib.contextmanager
    def raises(self, what, types=Exception):
        self.used = True
        try:
            yield
        except (Violation, HarnessError, MemoryError):
            raise
        except types:
            return
        except Exception as e:
            raise Violation(f'{what}: raised {type(e).__name__}({_short(str(e), 200)}),'
                            f' expected {types}') from None
        raise Violation(f'{what}: no error was raised')

    def known(self, key):
        self.known_hits.add(key)


def norm(x):
    """bytes-likes compare as bytes, tuples as lists, IntEnums as ints."""
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return ('set', sorted((norm(v) for v in x), key=repr))
    if isinstance(x, dict):
        return ('dict', sorted(((norm(k), norm(v)) for k, v in x.items()), key=lambda kv: repr(kv[0])))
    return x


def diff(g, w, path=''):
    """A short description of the first difference between two values."""
    if type(g) is bytes and type(w) is bytes:
        n = min(len(g), len(w))
        i = next((i for i in range(n) if g[i] != w[i]), n)
        return (f'{path} lengths got {len(g)} want {len(w)}, first difference at {i:#x}: '
                f'got {g[i:i+16].hex(" ")} want {w[i:i+16].hex(" ")}')
    if isinstance(g, (list, tuple)) and isinstance(w, (list, tuple)):
        for i, (a, b) in enumerate(zip(g, w)):
            if a != b:
                return diff(a, b, f'{path}[{i}]')
        return f'{path} lengths got {len(g)} want {len(w)}: got {_short(g)} want {_short(w)}'
    return f'{path} got {_short(g)} want {_short(w)}'


class Facet:
    def __init__(self, name, strategy, evaluate, quick, thorough=None, rule=''):
        self.name = name
        self.strategy = strategy
        self.evaluate = evaluate
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.rule = rule


class Check:
    def __init__(self, pid, facets, rule, assumptions=()):
        self.pid = pid
        self.facets = facets
        self.rule = rule
        self.assumptions = list(assumptions)

    def facet(self, name):
        for f in self.facets:
            if f.name == name:
                return f
        raise HarnessError(f'{self.pid} has no facet {name}')


# ---------------------------------------------------------------------------
# Running a single case


def _on_cpu_limit(signum, frame):
    raise CaseTimeout()


def run_case(facet, case):
    """Evaluate one case. Returns the tracker; raises Violation or HarnessError."""
    T = Tracker()
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        facet.evaluate(case, T)
    except (Violation, HarnessError, hypothesis.errors.HypothesisException):
        raise
    except MemoryError as e:
        if _has_repo_frame(e.__traceback__):
            raise Violation('ran out of memory (limit %d MB) inside ndspy' % (MEM_LIMIT >> 20)) from None
        raise
    except Exception as e:
        if _has_repo_frame(e.__traceback__):
            raise Violation(f'unexpected {type(e).__name__}: {_short(str(e), 300)}\n'
                            + _short(traceback.format_exc(), 3000)) from None
        if T.used and isinstance(e, UNEXPECTED):
            raise Violation(f'what the library returned is not what it should be: {type(e).__name__}: {_short(str(e), 300)}\n'
                            + _short(traceback.format_exc(), 3000)) from None
        raise HarnessError(f'{facet.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}') from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return T


# ---------------------------------------------------------------------------
# Replay files


def write_replay(pid, facet_name, case, message, mode='case', extra=None):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'facet': facet_name, 'mode': mode, 'case': case,
            'message': message}
    if extra:
        body.update(extra)
    text = repr(body)
    h = hashlib.sha256(text.encode('utf-8', 'surrogatepass')).hexdigest()[:12]
    path = os.path.join(d, f'{pid}-{facet_name}-{h}.case')
    with open(path, 'w', encoding='utf-8', errors='backslashreplace') as f:
        f.write(text + '\n')
    return path


def read_replay(path):
    with open(path, encoding='utf-8') as f:
        return ast.literal_eval(f.read())


# ---------------------------------------------------------------------------
# Running facets


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.known = set()

    def add(self, case, T):
        self.evaluations += 1
        self.known |= T.known_hits
        for l in T.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if T.is_nontrivial:
            r = repr(case)
            h = hashlib.blake2b(r.encode('utf-8', 'surrogatepass'), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                n = len(self.distinct)
                if n in (1, 20, 200, 1000):
                    self.samples.append(_short(r, 500))

    def export(self):
        return {'evaluations': self.evaluations, 'distinct': sorted(self.distinct),
                'labels': self.labels, 'samples': self.samples, 'known': sorted(self.known)}


def run_facet(facet, seed, n, stats):
    """
    Run n generated cases. Returns None, or (case, message, mode) for a
    violation.
    """
    last = {}
    harness_errors = []
    seen_failing = []

    def body(case):
        try:
            T = run_case(facet, case)
        except Violation as e:
            last['case'], last['message'] = case, str(e)
            raise
        except CaseTimeout:
            last['case'] = case
            raise
        except HarnessError as e:
            harness_errors.append(e)
            raise
        stats.add(case, T)

    test = hypothesis.given(facet.strategy())(body)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except CaseTimeout:
        return (last['case'], f'did not finish within {CASE_CPU_LIMIT} s of CPU time', 'case')
    except Violation as e:
        return (last['case'], last['message'], 'case')
    except HarnessError:
        raise
    except hypothesis.errors.Flaky as e:
        if harness_errors:
            raise HarnessError(f'{facet.name}: flaky harness error: {harness_errors[-1]}')
        # The outcome depends on what ran before in this process.
        return (last['case'], 'outcome depends on earlier calls in the same process: '
                + last['message'], 'session')
    except BaseExceptionGroup as e:
        raise HarnessError(f'{facet.name}: {e}: {[_short(str(x)) for x in e.exceptions]}')
    return None


def shard_seed(seed, pid, facet_name, shard):
    h = hashlib.sha256(f'{seed}/{pid}/{facet_name}/{shard}'.encode()).digest()
    return int.from_bytes(h[:8], 'little')


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception:
        pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def worker(check, tier, seed, shard, conn, only=None):
    """Runs in a child process: this shard's part of every facet."""
    _limits()
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull  # ndspy may print warnings
    result = {'shard': shard, 'facets': {}, 'violation': None, 'error': None}
    try:
        sys.setrecursionlimit(3000)
        for facet in check.facets:
            if only and facet.name not in only:
                continue
            total = facet.quick if tier == 'quick' else facet.thorough
            n = total // SHARDS + (1 if shard < total % SHARDS else 0)
            if n == 0:
                continue
            stats = Stats()
            t0 = time.time()
            s = shard_seed(seed, check.pid, facet.name, shard)
            bad = run_facet(facet, s, n, stats)
            exp = stats.export()
            exp['wall'] = time.time() - t0
            result['facets'][facet.name] = exp
            if bad is not None:
                case, message, mode = bad
                extra = {'seed': s, 'n': n} if mode == 'session' else None
                result['violation'] = (facet.name, case, message, mode, extra)
                break
    except BaseException as e:
        result['error'] = f'{type(e).__name__}: {e}\n{traceback.format_exc()}'
    conn.send(result)
    conn.close()


def strategies_selftest(check):
    for f in check.facets:
        f.strategy()


# ---------------------------------------------------------------------------
# Generic strategies


def expand(b):
    """Expand a blob spec (see blobs()) to bytes."""
    if isinstance(b, (bytes, bytearray)):
        return bytes(b)
    kind, seed, n = b
    if n == 0:
        return b''
    r = random.Random(seed)
    if kind == 'rand':
        return r.randbytes(n)
    if kind == 'zero':
        return bytes(n)
    if kind == 'ff':
        return b'\xff' * n
    if kind == 'few':    # few distinct symbols: compressible in short matches
        alpha = r.randbytes(r.randint(2, 4))
        return bytes(r.choices(alpha, k=n))
    if kind == 'period':
        p = r.randbytes(r.randint(1, 40))
        return (p * (n // len(p) + 1))[:n]
    if kind == 'count':
        return bytes((seed + i) & 0xFF for i in range(n))
    if kind == 'mixed':  # random pieces and copies of earlier pieces
        out = bytearray()
        while len(out) < n:
            c = r.random()
            if c < 0.4 or not out:
                out += r.randbytes(r.randint(1, 30))
            elif c < 0.8:
                d = r.randint(1, min(len(out), r.choice([20, 300, 5000])))
                l = r.randint(1, r.choice([4, 19, 60]))
                for _ in range(l):
                    out.append(out[-d])
            else:
                out += bytes([r.randrange(256)]) * r.randint(1, 50)
        return bytes(out[:n])
    raise HarnessError(f'unknown blob kind {kind}')


BLOB_KINDS = ['rand', 'mixed', 'few', 'period', 'zero', 'count', 'ff']


def blobs(max_size, small=24, min_size=0, kinds=BLOB_KINDS, multiple=1):
    """
    Byte strings: short ones spelled out, longer ones as (kind, seed,
    length). Sizes are multiples of `multiple`.
    """
    hi = max_size // multiple
    lo = -(-min_size // multiple)
    spec = st.tuples(st.sampled_from(kinds), st.integers(0, 0xFFFF),
                     sizes(lo, hi).map(lambda k: k * multiple))
    if multiple == 1 and small >= min_size:
        return st.one_of(st.binary(min_size=min_size, max_size=min(small, max_size)), spec)
    return spec


def sizes(lo, hi):
    """Integers biased towards small values, powers of two and the maximum."""
    if hi <= lo:
        return st.just(lo)
    pts = sorted({v for k in range(0, 30) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1)
                  if lo <= v <= hi} | {lo, hi})
    return st.one_of(st.integers(lo, min(hi, lo + 16)), st.sampled_from(pts), st.integers(lo, hi))


def ints(lo, hi):
    """Integers with the boundaries over-represented."""
    edge = sorted({v for v in (lo, lo + 1, hi, hi - 1, 0, 1, -1, 127, 128, 255, 256, 0x7FFF, 0x8000)
                   if lo <= v <= hi})
    return st.one_of(st.integers(lo, hi), st.sampled_from(edge))


u8 = lambda: ints(0, 0xFF)
u16 = lambda: ints(0, 0xFFFF)
u32 = lambda: ints(0, 0xFFFFFFFF)
s8 = lambda: ints(-0x80, 0x7F)
s16 = lambda: ints(-0x8000, 0x7FFF)
