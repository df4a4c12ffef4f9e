"""
Workload engine and verdict discipline shared by all checks.

A check is a set of scenarios.  A scenario is a function f(rng, m): it draws a workload from the PRNG `rng`, drives the
real library through its public API and lets monitors observe what happens through `m`.  Every case is identified by
(seed, scenario, index); the PRNG is derived from exactly that, so a violation replays from its identity alone.

Verdicts are three-valued:
  violated      a monitor saw something its oracle rejects, or a well-formed call failed    -> exit 1, VIOLATION line
  held          every scenario ran, and every monitor that must fire did                     -> exit 0
  inconclusive  too few cases ran, a deciding monitor was never reached, a watchdog fired    -> exit 2
"""
import collections
import hashlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
CASE_TIMEOUT = 240           # seconds; only ever makes a run inconclusive
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(Exception):
    def __init__(self, key, what):
        super().__init__(f'{key}: {what}')
        self.key, self.what = key, what


class Skip(Exception):
    """the drawn workload falls outside the property's domain"""


class Watchdog(BaseException):
    pass


class Mon:
    """the monitor attached to one case: event log, counters, oracle checks"""

    def __init__(self):
        self.log = []
        self.events = collections.Counter()
        self.checks = 0
        self.sig = hashlib.blake2b(digest_size=8)
        self.states = set()

    def op(self, name, *args):
        """record an event at the API boundary"""
        self.events[name] += 1
        self.sig.update(repr((name, args)).encode())
        if len(self.log) < 400:
            self.log.append([name] + [a if isinstance(a, (int, float, str, bool, type(None))) else repr(a)
                                      for a in args])

    def seen(self, name, n=1):
        self.events[name] += n

    def state(self, *what):
        """a distinct state or value observed by a monitor"""
        self.states.add(hash(what))

    def ok(self, cond, key, what='', *args):
        self.checks += 1
        self.events['check:' + key] += 1
        if not cond:
            raise Violation(key, what() if callable(what) else (what % args if args else what))

    def eq(self, got, want, key, what=''):
        self.ok(got == want, key, lambda: f'{what() if callable(what) else what}: got {got!r}, expected {want!r}')

    def same(self, got, want, key, what=''):
        self.ok(got is want, key, lambda: f'{what}: not the same object: got {got!r}, expected {want!r}')

    def close(self, got, want, key, what='', rel=1e-9, abs_=0.0):
        try:
            if abs(got) == float('inf') or abs(want) == float('inf'):
                good = bool(got == want)
            else:
                good = abs(got - want) <= abs_ + rel * max(abs(got), abs(want))
        except TypeError:
            good = False
        self.ok(good, key, lambda: f'{what() if callable(what) else what}: got {got!r}, expected {want!r}')

    def raises(self, exc, fn, key, what=''):
        try:
            r = fn()
        except exc:
            self.ok(True, key)
            return
        except Exception as e:
            raise Violation(key, f'{what}: raised {e!r} instead of {exc}')
        self.ok(False, key, f'{what}: returned {r!r} instead of raising {exc}')


def _start_coverage(hit):
    """line-level reach of the code under test (evidence only, never a verdict)"""
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    root = os.path.join(REPO, 'atomtoolkit')
    tid = mon.COVERAGE_ID
    mon.use_tool_id(tid, 'verif')

    def line(code, lineno):
        if code.co_filename.startswith(root):
            hit.add((os.path.relpath(code.co_filename, root), lineno))
        return mon.DISABLE

    mon.register_callback(tid, mon.events.LINE, line)
    mon.set_events(tid, mon.events.LINE)


def run_case(prop, seed, scen, idx, fn):
    m = Mon()
    rng = random.Random(f'{seed}/{prop}/{scen}/{idx}')
    res = {'scen': scen, 'idx': idx, 'status': 'held'}

    def bark(*_):
        raise Watchdog()

    signal.signal(signal.SIGALRM, bark)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(rng, m)
    except Violation as v:
        res.update(status='violated', key=v.key, what=v.what)
    except Skip:
        res['status'] = 'skipped'
    except Watchdog:
        res.update(status='watchdog')
    except MemoryError:
        res.update(status='watchdog')
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        res.update(status='violated', key='unexpected-exception:' + type(e).__name__,
                   what=f'{e!r} in a well-formed use of the library', tb=tb)
    finally:
        signal.alarm(0)
    res['m'] = m
    return res


def _worker(w, nw, prop, seed, plan, deadline, out):
    cov = set()
    _start_coverage(cov)
    tot = dict(n=collections.Counter(), skipped=collections.Counter(), events=collections.Counter(), checks=0,
               sigs=set(), states=set(), viol=[], watchdog=[], truncated=False, samples=[])
    for scen, n, fn in plan:
        for idx in range(w, n, nw):
            if time.time() > deadline:
                tot['truncated'] = True
                break
            r = run_case(prop, seed, scen, idx, fn)
            m = r.pop('m')
            if r['status'] == 'skipped':
                tot['skipped'][scen] += 1
                continue
            tot['n'][scen] += 1
            tot['events'].update(m.events)
            tot['checks'] += m.checks
            if m.checks:
                tot['sigs'].add((scen, m.sig.hexdigest()))
            tot['states'] |= m.states
            if idx < 2 or r['status'] == 'violated':
                r['log'] = m.log
            if idx < 2:
                tot['samples'].append({'scenario': scen, 'index': idx, 'checks': m.checks, 'trace': m.log[:12]})
            if r['status'] == 'watchdog':
                tot['watchdog'].append((scen, idx))
                if len(tot['watchdog']) > 1:
                    tot['truncated'] = True
                    break
            if r['status'] == 'violated' and len(tot['viol']) < 200:
                tot['viol'].append(r)
        if len(tot['viol']) >= 200 or tot['truncated']:
            break
    tot['cov'] = cov
    with os.fdopen(out, 'wb') as f:
        pickle.dump(tot, f)


def load_known():
    known = collections.defaultdict(dict)
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            if line.startswith('known: '):
                parts = line[len('known: '):].strip().split(' ', 2)
                pid = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1]
                known[pid][key] = parts[2] if len(parts) > 2 else ''
    return known


def run_check(mod, tier, seed, only=None):
    """mod: ID, SCENARIOS {name: (quick_n, thorough_n, fn)}, REQUIRED {event: minimum}, RULE, ASSUMPTIONS"""
    t0 = time.time()
    pid = mod.ID
    budget = float(os.environ.get('VERIF_BUDGET', '500' if tier == 'quick' else '820'))
    plan = []
    for name, (q, t, fn) in mod.SCENARIOS.items():
        if only and name not in only:
            continue
        plan.append((name, q if tier == 'quick' else t, fn))
    pipes = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(WORKERS):
        r, o = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            code = 1
            try:
                os.close(r)
                for rr, _ in pipes:
                    os.close(rr)
                _worker(w, WORKERS, pid, seed, plan, t0 + budget, o)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(o)
        pipes.append((r, pid_))
    agg = dict(n=collections.Counter(), skipped=collections.Counter(), events=collections.Counter(), checks=0,
               sigs=set(), states=set(), viol=[], watchdog=[], truncated=False, samples=[], cov=set())
    dead = 0
    for r, pid_ in pipes:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid_, 0)
        if not data:
            dead += 1
            continue
        t = pickle.loads(data)
        for k in ('n', 'skipped', 'events'):
            agg[k].update(t[k])
        agg['checks'] += t['checks']
        for k in ('sigs', 'states', 'cov'):
            agg[k] |= t[k]
        for k in ('viol', 'watchdog', 'samples'):
            agg[k] += t[k]
        agg['truncated'] |= t['truncated']
    known = load_known().get(pid, {})
    new, old = [], collections.OrderedDict()
    for v in sorted(agg['viol'], key=lambda v: (list(mod.SCENARIOS).index(v['scen']), v['idx'])):
        if v['key'] in known:
            old.setdefault(v['key'], v)
        else:
            new.append(v)
    problems = []
    if dead:
        problems.append(f'{dead} workers died')
    if agg['watchdog']:
        problems.append(f'watchdog fired on {agg["watchdog"][:3]}')
    for name, n, _ in plan:
        if agg['n'][name] < max(1, n // 3):
            problems.append(f'only {agg["n"][name]} of {n} cases of {name} ran')
    if not only:
        for ev, minimum in getattr(mod, 'REQUIRED', {}).items():
            if agg['events'][ev] < minimum:
                problems.append(f'monitor {ev} reached {agg["events"][ev]} < {minimum} times')
    if agg['checks'] == 0:
        problems.append('no oracle was ever consulted')
    wall = time.time() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': sum(agg['n'].values()),
            'distinct_nontrivial': len(agg['sigs']),
            'rule': mod.RULE + ' A case is non-trivial when at least one oracle comparison was made on it, and '
                               'distinct by the digest of its recorded operations and drawn values.',
            'samples': sorted(agg['samples'], key=lambda s: (s['scenario'], s['index']))[:12],
            'cases_per_scenario': dict(agg['n']), 'out_of_domain_draws': dict(agg['skipped']),
            'oracle_comparisons': agg['checks'], 'distinct_observed_states': len(agg['states']),
            'monitor_events': dict(sorted(agg['events'].items())),
            'library_lines_reached': {f: sum(1 for g, _ in agg['cov'] if g == f) for f in
                                      sorted({f for f, _ in agg['cov']})},
            'truncated_by_time': agg['truncated'],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(new),
        'known_findings': list(old), 'inconclusive': problems,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f'.{pid}.{os.getpid()}')
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f'{pid}.json'))
    for key, v in old.items():
        print(f'KNOWN-FINDING: property={pid} {key} {known[key]}')
    if new:
        v = new[0]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f'{pid}.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'scenario': v['scen'], 'index': v['idx'],
                       'key': v['key'], 'what': v['what'], 'history': v.get('log'), 'traceback': v.get('tb'),
                       'replay_cmd': f'{VERIF}/check {pid} --replay {path}',
                       'all': [[x['scen'], x['idx'], x['key'], x['what'][:300]] for x in new[:40]]},
                      f, indent=1, ensure_ascii=False, default=str)
        print(f'{pid}: {len(new)} violating cases of {sum(agg["n"].values())}; first: [{v["scen"]} #{v["idx"]}] '
              f'{v["key"]}: {v["what"][:600]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if problems:
        print(f'{pid}: INCONCLUSIVE: ' + '; '.join(problems))
        return 2
    print(f'{pid}: held on {sum(agg["n"].values())} cases ({len(agg["sigs"])} distinct), {agg["checks"]} oracle '
          f'comparisons, {len(agg["states"])} distinct observed states, {wall:.1f} s')
    return 0


def replay(mod, path):
    d = json.load(open(path, encoding='utf-8'))
    fn = mod.SCENARIOS[d['scenario']][2]
    r = run_case(mod.ID, d['seed'], d['scenario'], d['index'], fn)
    m = r.pop('m')
    for line in m.log:
        print('  ', *line)
    print({k: v for k, v in r.items() if k != 'tb'})
    if r.get('tb'):
        print(r['tb'])
    if r['status'] == 'violated':
        print(f'VIOLATION property={mod.ID} replay={path}')
        return 1
    return 0 if r['status'] == 'held' else 2
