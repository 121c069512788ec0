"""Shared plumbing of the checks: reporting, evidence, known findings."""
import json
import os
import resource
import signal
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
START = time.time()
UNDECIDED = []      # jobs the analysis could not finish: the property is then not shown


def _left():
    return 1e9 if os.environ.get('VERIF_TIER') == 'thorough' else START + 560 - time.time()


class TimeUp(BaseException):
    pass


def _alarm(*_):
    raise TimeUp()


def guard(fn, x, name='', limit=100):
    """(True, fn(x)), or (False, why) if the analysis cannot decide x."""
    if os.environ.get('VERIF_TIER') == 'thorough':
        limit *= 6
    t = min(limit, _left())
    if t <= 0:
        return False, '%s: not reached in time' % name
    signal.signal(signal.SIGALRM, _alarm)
    try:
        signal.setitimer(signal.ITIMER_REAL, t)
        r = fn(x)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return True, r
    except TimeUp:
        return False, '%s: undecided after %d s' % (name, t)
    except MemoryError:
        return False, '%s: out of memory' % name
    except Exception as e:
        w = '' if type(e).__name__ == 'AnalysisBroken' else traceback.format_exc()[-1500:]
        return False, '%s: %s: %s%s' % (name, type(e).__name__, str(e)[:600], w and '\n' + w)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []    # (key, text)
        self.obligations = 0
        self.samples = []
        self.notes = {}
        self.functions = set()

    def ok(self, n=1, sample=None):
        self.obligations += n
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, text):
        """One violated obligation; key identifies the instance."""
        self.obligations += 1
        for k, _ in self.violations:
            if k == key:
                return
        self.violations.append((key, text))

    def check(self, cond, key, text, sample=None):
        if cond:
            self.ok(1, sample)
        else:
            self.bad(key, text)
        return cond


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                d = ln[len('finding:'):].strip()
                prop, _, rest = d.partition(' ')
                key, _, text = rest.partition(' -- ')
                out.append((prop.split('=')[1], key.split('key=', 1)[1].strip(), text))
    return out


def finish(rep, min_obligations, assumptions=(), rule='', trusted=()):
    kn = {(p, k): t for p, k, t in known()}
    new = []
    hit = []
    for k, t in rep.violations:
        if (rep.prop, k) in kn:
            hit.append((k, t))
        else:
            new.append((k, t))
    ev = {
        'property': rep.prop,
        'tier': os.environ.get('VERIF_TIER', 'quick'),
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'proof',
        'coverage': {
            'obligations': rep.obligations,
            'discharged': rep.obligations - len(rep.violations),
            'checker_cmd': 'python3 /verif/check.py ' + rep.prop,
            'trusted_base': ['clang 18 front end (IR of the build\'s language mode)', 'vt/absint.py, vt/bdd.py', 'vt/x86.py 8086 model'] + list(trusted),
            'rule': rule,
            'functions_analysed': sorted(rep.functions),
            'samples': rep.samples or ['none'],
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - rep.t0, 2),
        'violations': len(new),
    }
    ev['coverage'].update(rep.notes)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    epath = os.path.join(VERIF, 'evidence', rep.prop + '.json')
    rpath = os.path.join(VERIF, 'evidence', rep.prop + '.report.txt')
    with open(rpath, 'w') as f:
        for k, t in new:
            f.write('VIOLATION %s\n  %s\n' % (k, t))
        for k, t in hit:
            f.write('KNOWN %s\n  %s\n' % (k, t))
    with open(epath, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, t in hit:
        print('KNOWN-FINDING: property=%s %s' % (rep.prop, kn[(rep.prop, k)] or t))
    for k, t in new[:30]:
        print('  [%s] %s' % (k, t))
    if new:
        print('VIOLATION property=%s replay=%s' % (rep.prop, rpath))
        return 1
    if UNDECIDED:
        for t in UNDECIDED[:20]:
            print('  undecided: %s' % t)
        print('ANALYSIS BROKEN property=%s: %d jobs undecided' % (rep.prop, len(UNDECIDED)))
        return 3
    if rep.obligations < min_obligations:
        print('ANALYSIS BROKEN: only %d obligations (expected at least %d)' % (rep.obligations, min_obligations))
        return 3
    print('OK property=%s obligations=%d wall=%.1fs' % (rep.prop, rep.obligations, ev['wall_s']))
    return 0


def _call(a):
    f, i, x = a
    lim = 3400 << 20
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    ok, r = guard(f, x, 'worker', 10000)
    return i, ok, r


def note(ok, r):
    """Unpack what guard returned; remember what is undecided."""
    if not ok:
        UNDECIDED.append(r)
    return ok


def pmap(f, xs, procs=None):
    """Parallel map with forked workers, in order; what cannot be decided is
    left out of the results and remembered in UNDECIDED."""
    xs = list(xs)
    procs = procs or min(8, os.cpu_count() or 1)
    out = {}
    ctx = mp.get_context('fork')
    p = ctx.Pool(procs)
    try:
        it = p.imap_unordered(_call, [(f, i, x) for i, x in enumerate(xs)], chunksize=1)
        for _ in xs:
            i, ok, r = it.next(min(_left() + 60, 1e6))
            out[i] = None
            if note(ok, r):
                out[i] = (r,)
    except mp.TimeoutError:
        UNDECIDED.append('%d of %d parts not finished' % (len(xs) - len(out), len(xs)))
    finally:
        p.terminate()
    return [out[i][0] for i in sorted(out) if out[i]]
