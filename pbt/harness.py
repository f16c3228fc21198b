"""
property-based test driver

A check is a list of Parts.  A Part has a Hypothesis strategy producing JSON-able cases and a function deciding
one case: it raises Violation when the property fails on the case, Skip when the case is outside the property's
quantifier, and otherwise returns a (nontrivial: bool, key: hashable or None) pair for the evidence.
"""
from __future__ import annotations
import hashlib, json, os, sys, time, traceback, signal, contextlib, io

QUICK, THOROUGH = 'quick', 'thorough'


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    pass


class Hang(BaseException):
    pass


class Done(BaseException):
    """time is up"""


@contextlib.contextmanager
def sut(what, allow=()):
    """code under test runs in here: an exception not in `allow` is a violation"""
    try:
        yield
    except (Violation, Skip, Hang):
        raise
    except allow:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in reversed(tb):
            if '/pynare/' in fr.filename:
                where = f' at {os.path.basename(fr.filename)}:{fr.name}'
                break
        raise Violation(f'{what}: unexpected {type(e).__name__}: {str(e)[:300]}{where}') from e


@contextlib.contextmanager
def cpu_limit(seconds, what='call'):
    """Hang if the block uses more than `seconds` of CPU time"""
    def handler(sig, frame):
        raise Hang(what)
    old = signal.signal(signal.SIGVTALRM, handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class Part:
    def __init__(self, name, strategy, decide, rule, quick=200, thorough=4000):
        self.name, self.strategy, self.decide, self.rule = name, strategy, decide, rule
        self.n = {QUICK: quick, THOROUGH: thorough}


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.errors = 0
        self.keys = set()
        self.samples = []
        self.hard_stop = 0

    def as_json(self):
        return dict(evaluations=self.evaluations, skipped=self.skipped, errors=self.errors, keys=sorted(self.keys), samples=self.samples)


def run_part(part, tier, seed, budget_s, n=None, shrink_s=float(os.environ.get('PBT_SHRINK', '40'))):
    """returns (stats, failure) with failure None or dict(case=..., message=...)"""
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    st = Stats()
    t0 = time.monotonic()
    best = {}
    odd = {}
    state = dict(found=None)

    def body(case):
        now = time.monotonic()
        if state['found'] is not None and now - state['found'] > shrink_s:
            raise Done
        if state['found'] is None and now - t0 > budget_s:
            raise Done
        c = canon(case)
        case = json.loads(c)
        try:
            st.evaluations += 1
            nontrivial, key = part.decide(case)
        except Skip:
            st.skipped += 1
            return
        except (Violation, Hang) as e:
            msg = str(e) if isinstance(e, Violation) else f'did not terminate: {e}'
            if state['found'] is None:
                state['found'] = now
            size = len(c)
            if not best or size <= best['size']:
                best.update(size=size, case=case, message=msg)
            raise AssertionError(type(e).__name__)
        except Exception as e:
            # the check itself stumbled, over its own limits or over an answer of an unexpected form: the
            # former is rare, the latter not (see below)
            st.errors += 1
            if not odd or len(c) < odd['size']:
                odd.update(size=len(c), case=case, message=odd_message(e))
            return
        if nontrivial:
            k = hashlib.sha1(c.encode()).hexdigest()[:12] if key is None else str(key)
            st.keys.add(k)
            if len(st.samples) < 2 and len(c) < 3000:
                st.samples.append(case)

    test = settings(max_examples=n or part.n[tier], database=None, deadline=None, print_blob=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink))(given(part.strategy)(body))
    test = hseed(seed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except Done:
        pass
    except BaseException as e:
        if not best:
            raise
        if isinstance(e, KeyboardInterrupt):
            raise
    if best:
        return st, dict(part=part.name, case=best['case'], message=best['message'])
    if st.errors >= 5 and st.errors > 0.1 * st.evaluations:
        return st, dict(part=part.name, case=odd['case'], message=odd['message'])
    return st, None


def odd_message(e):
    fr = traceback.extract_tb(e.__traceback__)[-1]
    return (f'the answer cannot be examined: {type(e).__name__}: {str(e)[:300]} '
            f'at {os.path.basename(fr.filename)}:{fr.lineno}')


def decide_once(part, case):
    """None if the case passes, else the message"""
    try:
        with quiet():
            part.decide(json.loads(canon(case)))
    except Skip:
        return None
    except Violation as e:
        return str(e) or 'violation'
    except Hang as e:
        return f'did not terminate: {e}'
    except Exception as e:
        return odd_message(e)
    return None
