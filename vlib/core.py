"""Exploration framework shared by all checks.

A check module (checks/cXX.py) provides

    PROPERTY = "C01"
    def prepare(tier): ...                 # optional; runs once in the parent before forking
    def families(tier): -> list[Family]    # what is explored

A Family is a named finite space cut into JSON-able chunks.  `run(ctx, chunk)` explores one chunk
exhaustively on the real code and compares every step with a reference model.  Chunks are spread
over forked worker processes; nothing is sampled.  A chunk is also the unit of replay.
"""
from __future__ import annotations

import concurrent.futures as cf
import dataclasses
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHUNK_TIMEOUT = 300          # seconds without finishing one chunk counts as non-termination
WORKER_MEMORY = 6 << 30


class Violation(Exception):
    def __init__(self, message, key=None, repro=None):
        super().__init__(message)
        self.message, self.key, self.repro = message, key, repro


class Timeout(BaseException):
    pass


class Ctx:
    """What one chunk reports."""

    def __init__(self, max_samples=2):
        self.states = set()
        self.n_states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = Counter()
        self.samples = []
        self.max_samples = max_samples

    def state(self, key):
        """Record one state of the explored space (deduplicated by hash over the whole run)."""
        self.states.add(hash(key))

    def fresh_states(self, k):
        """Record k states which are distinct by construction of the enumeration."""
        self.n_states += k

    def step(self, k=1):
        """k implementation operations executed and compared."""
        self.transitions += k

    def trace(self, k=1):
        """k complete executions (traces) of the implementation agreed with the reference."""
        self.traces += k

    def outcome(self, x):
        self.outcomes[x] += 1

    def sample(self, x):
        if len(self.samples) < self.max_samples:
            self.samples.append(x)

    def fail(self, message, key=None, repro=None):
        raise Violation(message, key, repro)

    def check(self, cond, message, key=None, repro=None):
        if not cond:
            if callable(message):
                message = message()
            raise Violation(message, key, repro)

    def raises(self, fn, what, types=Exception):
        """fn must refuse (raise); returns the exception."""
        try:
            r = fn()
        except types as e:
            return e
        raise Violation(f"{what}: expected to be refused, but returned {r!r:.300}")


@dataclasses.dataclass
class Family:
    name: str
    chunks: list
    run: object                 # run(ctx, chunk)
    about: str = ''
    isolate: bool = False       # run every chunk in its own pristine forked process


def _alarm(sig, frame):
    raise Timeout()


def run_chunk(fam: Family, chunk):
    """Run a chunk, returning a plain result dictionary."""
    ctx = Ctx()
    out = {'violation': None}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CHUNK_TIMEOUT)
    t0 = time.time()
    try:
        fam.run(ctx, chunk)
    except Violation as v:
        out['violation'] = {'message': v.message, 'key': v.key, 'repro': v.repro,
                            'trace': ''.join(traceback.format_exc()[-3000:])}
    except Timeout:
        out['violation'] = {'message': f'no termination within {CHUNK_TIMEOUT} s (a computation hangs)',
                            'key': 'timeout', 'repro': None, 'trace': ''.join(traceback.format_exc()[-3000:])}
    except Exception as e:  # anything the code under test raises unexpectedly
        out['violation'] = {'message': f'unexpected {type(e).__name__}: {e}'[:2000], 'key': None, 'repro': None,
                            'trace': traceback.format_exc()[-4000:]}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out.update(states=ctx.states, n_states=ctx.n_states, transitions=ctx.transitions,
               traces=ctx.traces, outcomes=ctx.outcomes, samples=ctx.samples, wall=time.time() - t0)
    return out


_FAMS: list[Family] = []


def _worker(fi, ci):
    return fi, ci, run_chunk(_FAMS[fi], _FAMS[fi].chunks[ci])


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
    except (ValueError, OSError):
        pass


def known_findings(prop):
    """Entries {'property','key','what'} of listed, unrepaired findings."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [f for f in data.get('findings', []) if f['property'] == prop]


def jsonable(x):
    return json.loads(json.dumps(x, default=str))


def main(mod, tier, seed, only=None, jobs=None, budget=None):
    prop = mod.PROPERTY
    t0 = time.time()
    global CHUNK_TIMEOUT
    CHUNK_TIMEOUT = 300 if tier == 'quick' else 3600
    budget = budget or (800 if tier == 'quick' else 6 * 3600)
    resdir = os.path.join(VERIF, 'evidence')
    os.makedirs(resdir, exist_ok=True)
    repdir = os.path.join(resdir, 'replays')
    os.makedirs(repdir, exist_ok=True)

    setup_error = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CHUNK_TIMEOUT)
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(tier)
        fams = mod.families(tier)
    except Timeout:
        setup_error = ('setup', f'no termination within {CHUNK_TIMEOUT} s while building tables', traceback.format_exc())
        fams = []
    except Exception as e:
        setup_error = ('setup', f'unexpected {type(e).__name__} while building tables: {e}', traceback.format_exc())
        fams = []
    finally:
        signal.alarm(0)

    if only:
        fams = [f for f in fams if f.name in only]
    global _FAMS
    _FAMS = fams

    states, n_states, transitions, traces = set(), 0, 0, 0
    outcomes = Counter()
    samples = []
    per_family = {f.name: {'about': f.about, 'chunks': len(f.chunks), 'done': 0, 'states': 0, 'transitions': 0,
                           'traces': 0, 'cpu_s': 0.0} for f in fams}
    fam_states = {f.name: set() for f in fams}
    violations = []
    capped = False
    known = known_findings(prop)
    known_hit = {}

    if setup_error:
        violations.append((-1, -1, {'message': setup_error[1], 'key': None, 'repro': None, 'trace': setup_error[2][-4000:]}))
    else:
        jobs = jobs or min(8, os.cpu_count() or 1)
        order = [(fi, ci) for fi, f in enumerate(fams) for ci in range(len(f.chunks))]
        # interleave the families so that heavy ones start early, simplest chunks first
        order.sort(key=lambda x: (x[1] / max(1, len(fams[x[0]].chunks)), x[0]))

        def absorb(fi, ci, res):
            nonlocal n_states, transitions, traces
            f = fams[fi]
            states.update(hash((f.name, s)) for s in res['states'])
            fam_states[f.name].update(res['states'])
            n_states += res['n_states']
            transitions += res['transitions']
            traces += res['traces']
            outcomes.update(res['outcomes'])
            pf = per_family[f.name]
            pf['done'] += 1
            pf['states'] += res['n_states']
            pf['transitions'] += res['transitions']
            pf['traces'] += res['traces']
            pf['cpu_s'] += res['wall']
            if len([s for s in samples if s['family'] == f.name]) < 2:
                samples.extend({'family': f.name, 'case': jsonable(s)} for s in res['samples'][:2])
            if res['violation']:
                v = res['violation']
                for k in known:
                    if v['key'] is not None and v['key'] == k['key']:
                        known_hit[k['key']] = k
                        return False
                violations.append((fi, ci, v))
                return True
            return False

        stop = False
        ctx = mp.get_context('fork')
        try:
            with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker) as ex:
                it = iter(order)
                pending = set()
                done_feeding = False
                while True:
                    while not stop and not done_feeding and len(pending) < jobs * 2:
                        try:
                            fi, ci = next(it)
                        except StopIteration:
                            done_feeding = True
                            break
                        pending.add(ex.submit(_worker, fi, ci))
                    if not pending:
                        break
                    done, pending = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
                    for fut in done:
                        if absorb(*fut.result()):
                            stop = True
                    if stop:
                        for fut in pending:
                            fut.cancel()
                        # let the chunks already running finish briefly, to prefer the simplest counterexample
                        d2, p2 = cf.wait(pending, timeout=10)
                        for fut in d2:
                            if not fut.cancelled():
                                absorb(*fut.result())
                        for p in list(getattr(ex, '_processes', {}).values()):
                            p.kill()
                        break
                    if time.time() - t0 > budget:
                        capped = True
                        for fut in pending:
                            fut.cancel()
                        for p in list(getattr(ex, '_processes', {}).values()):
                            p.kill()
                        break
        except cf.process.BrokenProcessPool:
            if not violations and not capped:
                violations.append((-1, -1, {'message': 'a worker process died (memory or crash) while running the code under test',
                                            'key': None, 'repro': None, 'trace': ''}))

    for name, s in fam_states.items():
        per_family[name]['states'] += len(s)
        per_family[name]['cpu_s'] = round(per_family[name]['cpu_s'], 2)

    total_states = len(states) + n_states
    wall = time.time() - t0
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    replay = None
    if violations:
        violations.sort(key=lambda v: (v[1], v[0]))
        fi, ci, v = violations[0]
        replay = os.path.join(repdir, f'{prop}.json')
        with open(replay, 'w') as fh:
            json.dump({'property': prop, 'tier': tier, 'family': fams[fi].name if fi >= 0 else None,
                       'chunk': jsonable(fams[fi].chunks[ci]) if fi >= 0 else None, 'chunk_index': ci,
                       'message': v['message'], 'key': v['key'], 'repro': v['repro'], 'traceback': v['trace'],
                       'how_to_replay': f'./run.sh --replay {replay}'}, fh, indent=1, default=str)

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': total_states, 'transitions': transitions, 'traces_validated_against_impl': traces,
            'samples': samples[:24], 'exhaustive': not capped and not violations,
            'distinct_outcomes': len(outcomes),
            'outcomes': {str(k): c for k, c in outcomes.most_common(40)},
            'families': per_family, 'capped': capped,
            'bounds': getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {})) if isinstance(getattr(mod, 'BOUNDS', {}), dict) else mod.BOUNDS,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    tmp = os.path.join(resdir, f'.{prop}.tmp')
    with open(tmp, 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)
    os.replace(tmp, os.path.join(resdir, f'{prop}.json'))

    print(f"{prop} [{tier}] states={total_states} transitions={transitions} traces={traces} "
          f"outcomes={len(outcomes)} capped={capped} wall={wall:.1f}s")
    for name, pf in per_family.items():
        print(f"   {name}: chunks {pf['done']}/{pf['chunks']} states={pf['states']} transitions={pf['transitions']} "
              f"traces={pf['traces']} cpu={pf['cpu_s']}s")
    if violations:
        for fi, ci, v in violations[:3]:
            print(f"  counterexample [{fams[fi].name if fi >= 0 else 'setup'}]: {v['message'][:1500]}")
            if v['repro']:
                print(f"  repro: {v['repro'][:1500]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    return 0


def slices(total, size):
    """Chunk descriptions [lo, hi) covering range(total)."""
    return [[lo, min(total, lo + size)] for lo in range(0, total, size)]


def split_list(xs, pieces):
    """Cut a list into about `pieces` contiguous parts."""
    xs = list(xs)
    size = max(1, -(-len(xs) // pieces))
    return [xs[i:i + size] for i in range(0, len(xs), size)]
