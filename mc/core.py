"""
Exploration engine shared by all checks.

A check is a list of Layers.  A layer describes one finite transition system: shards() cuts its state space into
independent pieces (prefixes of the choice tree), explore(shard, ctx) walks a piece completely and calls
ctx.case(layer, case) for every execution to be judged; check(case, ctx) runs the real pympc code on that execution and
compares it with the reference model.  Cases are JSON values, so every violation is a replayable file.
"""
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYMPC_REPO', '/repo')
MAX_VIOLATIONS = 5


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """Raised by a check when the code under test broke the property on the current case."""


def _alarm(signum, frame):
    raise CaseTimeout()


class Ctx(object):
    def __init__(self, tier):
        self.tier = tier
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.outcomes = {}
        self.samples = []
        self.skipped = {}

    # counters ------------------------------------------------------------------------------------------------------
    def state(self, k=1):
        self.states += k

    def step(self, k=1):
        """One call of the real code whose result is compared with the reference model."""
        self.transitions += k

    def outcome(self, tag):
        self.outcomes[tag] = self.outcomes.get(tag, 0) + 1

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    # judging -------------------------------------------------------------------------------------------------------
    def case(self, layer, case):
        """Runs one execution on the real code; any escape other than normal return is a violation."""
        if len(self.violations) >= MAX_VIOLATIONS:
            return False
        self.traces += 1
        if len(self.samples) < 1 or (len(self.samples) < 3 and self.traces in (100, 1000)):
            self.samples.append({'layer': layer.name, 'case': case})
        limit = layer.time_limit
        signal.setitimer(signal.ITIMER_REAL, limit)
        msg = None
        try:
            layer.check(case, self)
        except Violation as e:
            msg = str(e)
        except CaseTimeout:
            msg = 'no answer within %g s (terminates in a fraction of a second on the reference tree)' % limit
        except Exception as e:
            msg = 'unexpected %s: %s | %s' % (type(e).__name__, e, ' / '.join(
                l.strip().replace('\n', ' ') for l in traceback.format_tb(sys.exc_info()[2])[-3:]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if msg is not None:
            self.violations.append({'layer': layer.name, 'case': case, 'message': msg})
            return False
        return True


class Layer(object):
    name = 'layer'
    time_limit = 60.
    bounds = ''

    def shards(self, tier):
        return [None]

    def explore(self, shard, ctx):
        raise NotImplementedError

    def check(self, case, ctx):
        raise NotImplementedError


class Cases(Layer):
    """A layer given by a deterministic generator of JSON cases: every case is executed; cases are dealt to shards."""

    def __init__(self, name, gen, check, bounds='', nshards=64, time_limit=60., states=None):
        self.name, self.gen, self._check, self.bounds, self.nshards = name, gen, check, bounds, nshards
        self.time_limit = time_limit

    def shards(self, tier):
        return [[tier, k] for k in range(self.nshards)]

    def explore(self, shard, ctx):
        tier, k = shard
        for i, case in enumerate(self.gen(tier)):
            if i % self.nshards == k:
                ctx.case(self, case)
                if len(ctx.violations) >= MAX_VIOLATIONS:
                    return

    def check(self, case, ctx):
        self._check(case, ctx)


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


_LAYERS = None
_TIER = None


def _init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _work(job):
    li, shard = job
    layer = _LAYERS[li]
    ctx = Ctx(_TIER)
    t = time.time()
    try:
        layer.explore(shard, ctx)
    except CaseTimeout:
        ctx.violations.append({'layer': layer.name, 'case': None, 'message': 'timeout outside a case, shard %r' % (shard,)})
    except Exception:
        # the harness itself failed: not an answer about the property
        return {'harness_error': 'layer %s shard %r\n%s' % (layer.name, shard, traceback.format_exc())}
    return {'layer': li, 'shard': shard, 'states': ctx.states, 'transitions': ctx.transitions, 'traces': ctx.traces,
            'violations': ctx.violations, 'outcomes': ctx.outcomes, 'samples': ctx.samples, 'skipped': ctx.skipped,
            'cpu': time.time() - t}


def import_repo():
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import pympc
    f = os.path.abspath(pympc.__file__)
    if not f.startswith(REPO + os.sep):
        raise RuntimeError('pympc imported from %s' % f)


def run(pid, layers, tier, level_note=None, assumptions=()):
    global _LAYERS, _TIER
    _LAYERS, _TIER = layers, tier
    t0 = time.time()
    jobs = []
    for li, l in enumerate(layers):
        for s in l.shards(tier):
            jobs.append((li, s))
    # biggest layers are listed first by the checks; interleave so that every layer starts early
    tot = {'states': 0, 'transitions': 0, 'traces': 0}
    per = {l.name: {'bounds': l.bounds, 'states': 0, 'transitions': 0, 'traces': 0, 'outcomes': {}, 'skipped': {},
                    'cpu_s': 0.} for l in layers}
    viol, samples, errors = [], [], []
    nproc = int(os.environ.get('MC_JOBS', '0')) or os.cpu_count() or 1
    sys.stdout.flush()
    complete = True
    with mp.get_context('fork').Pool(nproc, _init_worker) as pool:
        for r in pool.imap_unordered(_work, jobs, 1):
            if 'harness_error' in r:
                errors.append(r['harness_error'])
                continue
            p = per[layers[r['layer']].name]
            for k in tot:
                tot[k] += r[k]
                p[k] += r[k]
            for src, dst in ((r['outcomes'], p['outcomes']), (r['skipped'], p['skipped'])):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            p['cpu_s'] = round(p['cpu_s'] + r['cpu'], 2)
            viol += r['violations']
            if r['samples'] and sum(s['layer'] == layers[r['layer']].name for s in samples) < 2:
                samples += r['samples'][:1]
            if len(viol) >= MAX_VIOLATIONS:
                complete = False
                pool.terminate()
                break
    wall = time.time() - t0
    ev = {
        'property': pid,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'model_checking',
        'coverage': {
            'states': tot['states'],
            'transitions': tot['transitions'],
            'traces_validated_against_impl': tot['traces'],
            'exhaustive': complete and not errors,
            'samples': samples,
            'layers': per,
            'explanation': 'states: distinct configurations/histories of the transition systems below, each built in the '
                           'reference model and in the real code; transitions: calls of the real code whose answer was '
                           'compared with the reference model; traces: complete executions replayed on the real code.',
        },
        'assumptions': list(assumptions),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in layers:
        p = per[l.name]
        if p['traces']:
          print('%s %-28s states=%d transitions=%d traces=%d outcomes=%s%s cpu=%.1fs' % (
            pid, l.name, p['states'], p['transitions'], p['traces'], json.dumps(p['outcomes']),
            (' skipped=' + json.dumps(p['skipped'])) if p['skipped'] else '', p['cpu_s']))
    print('%s total states=%d transitions=%d traces=%d wall=%.1fs tier=%s' % (
        pid, tot['states'], tot['transitions'], tot['traces'], wall, tier))
    if viol:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        viol.sort(key=lambda v: len(json.dumps(v['case'], default=str)))
        for i, v in enumerate(viol[:MAX_VIOLATIONS]):
            path = os.path.join(d, '%s-%d.json' % (pid, i))
            v = dict(v, property=pid, tier=tier)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('  [%s] %s' % (v['layer'], v['message'][:400]))
            print('  case: %s' % json.dumps(v['case'], default=str)[:400])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        print('HARNESS ERROR in %d shards:\n%s' % (len(errors), errors[0]))
        return 2
    return 0
