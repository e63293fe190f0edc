#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--repo DIR]  |  check.py --replay FILE

Decides one property for the current working tree of /repo:
  1. deductive part: every contract of the property is verified by pydv (obligations over all inputs);
  2. run-time part: the same contracts are executed on the real package with seeded inputs (bounded, never
     counted as proved); counterexamples of (1) are replayed there.
Exit 0: no violation.  Exit 1: VIOLATION line.  Exit 2: the check could not run.
"""
import argparse
import fnmatch
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
PYPY = '/opt/venv/bin/python'
EVID = os.path.join(HERE, 'evidence')
REPLAY = os.path.join(EVID, 'replay')

TIERS = dict(
    quick=dict(until=430, budget=110, prove_ms=4000, runs=400, seconds=9, shards=3, jobs=7, hunt_s=20, replays=12),
    thorough=dict(until=4000, budget=900, prove_ms=30000, runs=100000, seconds=240, shards=4, jobs=8, hunt_s=120, replays=60),
)


def env():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
    e.pop('PYTHONPATH', None)
    return e


def bounded_cmd(repo, out, **k):
    cmd = [PYPY, os.path.join(HERE, 'pydv', 'bounded.py'), '--repo', repo, '--json', out]
    for a, v in k.items():
        if v is True:
            cmd.append('--' + a)
        elif v not in (None, False):
            cmd += ['--' + a, str(v)]
    return cmd


class Bounded:
    """A run of the run-time contracts in the package's interpreter."""

    def __init__(self, repo, tmp, tag, timeout, **k):
        self.out = os.path.join(tmp, tag + '.json')
        self.timeout = timeout
        self.t0 = time.time()
        self.p = subprocess.Popen(bounded_cmd(repo, self.out, **k), env=env(), cwd=tmp, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def result(self):
        try:
            _, err = self.p.communicate(timeout=max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.communicate()
            return dict(error='timeout', evaluations=0, distinct=0, checks=0, violations=[], contracts={}, samples=[])
        try:
            with open(self.out) as f:
                return json.load(f)
        except Exception:
            return dict(error='no result: ' + err.decode('utf8', 'replace')[-1500:], evaluations=0, distinct=0, checks=0,
                        violations=[], contracts={}, samples=[])


def known_findings():
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)['findings']]


def is_frame(name):
    return name.startswith('frame:') or '/frame:' in name or 'readonly' in name or 'isolated' in name


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--replay')
    ap.add_argument('--only', default='*')
    ap.add_argument('--evidence', default=EVID)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a)
    T = TIERS.get(a.tier, TIERS['quick'])
    t0 = time.time()
    os.makedirs(a.evidence, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='pydv-')
    try:
        return run(a, T, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(a):
    with open(a.replay) as f:
        r = json.load(f)
    tmp = tempfile.mkdtemp(prefix='pydv-')
    try:
        if r.get('inputs') is not None:
            g = os.path.join(tmp, 'given.json')
            with open(g, 'w') as f:
                json.dump([dict(contract=r['contract'], inputs=r['inputs'])], f)
            res = Bounded(a.repo, tmp, 'replay', 120, given=g, frames=r.get('frames', False)).result()
            print(json.dumps(res['violations'], indent=1))
            print('reproduced' if res['violations'] else 'not reproduced')
            return 1 if res['violations'] else 0
        print(json.dumps(r, indent=1))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, T, t0, tmp):
    from pydv import verify
    prop = a.prop
    reg = verify.load_contracts(a.repo)
    verify._W['reg'] = reg
    own = [c for c in reg.values() if c.prop == prop and fnmatch.fnmatch(c.name, a.only)]
    if not own:
        print('no contract for %s' % prop)
        return 2
    frames = prop == 'C01'
    others = [c for c in reg.values() if c.prop != prop and not c.opts.get('noframe')] if frames else []

    # ---- run-time part, in the background
    seconds = T['seconds']
    shards = []
    bkeys = [c.key for c in own if c.opts['bounded']]
    for s in range(T['shards']):
        if bkeys:
            shards.append(Bounded(a.repo, tmp, 'b%d' % s, seconds * 4 + 60, keys=','.join(bkeys), seed=a.seed, shard=s,
                                  runs=T['runs'], seconds=seconds))
    if others:
        ok = [c.key for c in others if c.opts['bounded']]
        shards.append(Bounded(a.repo, tmp, 'bf', seconds * 4 + 90, keys=','.join(ok), seed=a.seed, shard=7,
                              runs=max(10, T['runs'] // 10), seconds=seconds * 2, frames=True))

    # ---- deductive part
    opts = dict(budget=T['budget'], prove_ms=T['prove_ms'])
    dkeys = sorted((c.key for c in own if c.opts['deductive']), key=lambda k: -reg[k].opts.get('cost', 1))
    ded = verify.verify(a.repo, dkeys, opts, T['jobs'], until=t0 + T['until']) if dkeys else []
    if others:
        fkeys = sorted((c.key for c in others if c.opts['deductive']), key=lambda k: -reg[k].opts.get('cost', 1))
        o2 = dict(opts, budget=min(T['budget'], 40))
        ded += verify.verify(a.repo, fkeys, o2, T['jobs'], 'frame', until=t0 + T['until'])

    bres = [s.result() for s in shards]
    violations, notes = [], []
    errors = [r['error'] for r in bres if r['error']]
    for r in bres:
        for v in r['violations']:
            violations.append(dict(v, source='run-time contract on the real code'))

    # ---- counterexamples of failed obligations
    base = load_baseline()
    obs, refuted = [], []
    for r in ded:
        for o in r['obligations']:
            o['contract'] = r['contract']
            obs.append(o)
            if o['status'] == 'refuted':
                refuted.append(o)
        for n in sorted(set(r['notes'])):
            notes.append('%s: %s' % (r['contract'], n))
    unreplayed = []
    if refuted:
        by = {}
        for o in refuted:
            by.setdefault(o['name'], []).append(o)
        cases, ref = [], []
        for name, os_ in sorted(by.items()):
            for o in [x for x in os_ if x['values'] is not None][:3]:
                cases.append(dict(contract=o['contract'], inputs=o['values']))
                ref.append(o)
        cases, ref = cases[:T['replays']], ref[:T['replays']]
        got = []
        if cases and not violations:
            g = os.path.join(tmp, 'given.json')
            with open(g, 'w') as f:
                json.dump(cases, f)
            rr = Bounded(a.repo, tmp, 'replay', 120, given=g, frames=False).result()
            if rr['error']:
                errors.append(rr['error'])
            got = [v for v in rr['violations'] if not (frames and not v['contract'].startswith(prop + '/') and not is_frame(v['check']))]
            for v in got:
                violations.append(dict(v, source='counterexample of the verifier replayed on the real code'))
        if not violations:
            for name, os_ in sorted(by.items()):
                unreplayed.append(os_[0])

    # ---- intensified search where an obligation is not discharged any more
    suspicious = sorted({o['contract'] for o in obs if o['status'] != 'discharged'} |
                        {n.split(': ')[0] for n in notes} & {c.key for c in own})
    lost = [k for k in suspicious if k in reg and reg[k].opts['bounded'] and not base_ok(base, k, obs, notes)]
    hunted = 0
    if lost and not violations:
        hs = [Bounded(a.repo, tmp, 'h%d' % s, T['hunt_s'] * 3 + 60, keys=','.join(lost), seed=a.seed, shard=100 + s, runs=10 ** 6,
                      seconds=T['hunt_s']) for s in range(7)]
        for h in hs:
            r = h.result()
            hunted += r['evaluations']
            for v in r['violations']:
                if frames and not v['contract'].startswith(prop + '/') and not is_frame(v['check']):
                    continue
                violations.append(dict(v, source='search after a failed obligation, on the real code'))

    # ---- verdict
    known = [k for k in known_findings() if k['property'] == prop and k.get('status') == 'open']
    fresh, seenk = [], []
    for v in violations:
        k = next((k for k in known if k['contract'] == v['contract'] and k['check'] == v['check'] and
                  (k.get('inputs') is None or k['inputs'] == v['inputs'])), None)
        (seenk.append(k) if k else fresh.append(v))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    nofail = []
    if not fresh:
        for o in unreplayed:
            if o['name'] in base.get('discharged', ()):
                nofail.append(o)
    n_ob = len(obs)
    n_dis = sum(1 for o in obs if o['status'] == 'discharged')
    ev = evidence(a, prop, ded, obs, bres, notes, hunted, own, others, reg, n_ob, n_dis, time.time() - t0, len(fresh) + len(nofail))
    with open(os.path.join(a.evidence, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    if a.v:
        for o in obs:
            if o['status'] != 'discharged':
                print('  ', o['status'], o['name'], o['reason'][:150])
        for n in notes:
            print('   note', n[:300])
        for e in errors:
            print('   error', e[:1500])
    print('%s: %d obligations, %d discharged, %d refuted, %d run-time evaluations, %d contracts, %.1fs' % (
        prop, n_ob, n_dis, len(refuted), sum(r['evaluations'] for r in bres) + hunted, len(own), time.time() - t0))
    if fresh:
        v = fresh[0]
        path = write_replay(prop, v, frames and not v['contract'].startswith(prop + '/'))
        print('%s / %s: %s' % (v['contract'], v['check'], str(v['message'])[:400].replace('\n', ' | ')))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if nofail:
        o = nofail[0]
        path = write_replay(prop, dict(o, inputs=None, model=o['values'], message='obligation refuted by the verifier: %s' % o['reason'],
                                       check=o['name'], source='verifier'), False)
        print('obligation %s was discharged on the original tree and is refuted now' % o['name'])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    if errors or (n_ob == 0 and dkeys) or sum(r['evaluations'] for r in bres) == 0:
        for e in errors:
            print('check error:', e[-800:])
        if sum(r['evaluations'] for r in bres) == 0 or (n_ob == 0 and dkeys and not notes):
            print('the check explored nothing')
            return 2
    return 0


def base_ok(base, key, obs, notes):
    """The contract was not fully discharged on the baseline either, in the same way."""
    b = base.get('contracts', {}).get(key)
    if b is None:
        return False
    cur = {o['name'] for o in obs if o['contract'] == key and o['status'] != 'discharged'}
    nn = sum(1 for n in notes if n.startswith(key + ': '))
    return cur <= set(b['open']) and nn <= b['notes']


def load_baseline():
    p = os.path.join(HERE, 'baseline.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    d['discharged'] = set(d['discharged'])
    return d


def write_replay(prop, v, frames):
    os.makedirs(REPLAY, exist_ok=True)
    d = dict(property=prop, contract=v['contract'], check=v['check'], message=v['message'], inputs=v['inputs'],
             source=v['source'], where=v.get('where', ''), model=v.get('model'), frames=frames,
             how='python3-vt /verif/check.py --replay <this file>')
    txt = json.dumps(d, indent=1, default=repr)
    path = os.path.join(REPLAY, '%s-%s.json' % (prop, hashlib.sha1(txt.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(txt)
    return path


def evidence(a, prop, ded, obs, bres, notes, hunted, own, others, reg, n_ob, n_dis, wall, nviol):
    backends, funcs = {}, set()
    for o in obs:
        if o['status'] == 'discharged':
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    openc = {o['contract'] for o in obs if o['status'] != 'discharged'} | {n.split(': ')[0] for n in notes}
    for c in own:
        funcs |= set(c.opts['functions'])
    proved = sorted(r['contract'] for r in ded if r['contract'] not in openc and r['obligations'])
    lem = sorted({l for r in ded for l in r['lemmas']})
    tru = sorted({l for r in ded for l in r['trusted']})
    samples = [s for r in bres for s in r['samples']][:4]
    ev = sum(r['evaluations'] for r in bres) + hunted
    cov = dict(
        functions_under_contract=sorted(funcs),
        contracts={c.key: dict(deductive=c.opts['deductive'], bounded=c.opts['bounded'], bound=c.opts['bound']) for c in own},
        contracts_fully_proved=proved,
        bounded_stand_ins=sorted(c.key for c in own if not c.opts['deductive']),
        obligations=n_ob, discharged=n_dis,
        obligation_names=len({o['name'] for o in obs}),
        back_ends=backends, solver_s=round(sum(r['solver_s'] for r in ded), 2),
        paths=sum(r['paths'] for r in ded), paths_completed=sum(r['completed'] for r in ded),
        undecided=sorted({'%s [%s]' % (o['name'], o['status']) for o in obs if o['status'] != 'discharged'}) + sorted(set(notes))[:40],
        lemma_schemas=lem,
        checker_cmd='cd /verif && ./check.py %s --tier %s' % (prop, a.tier),
        trusted_base=['pydv rewriter and symbolic executor (/verif/pydv)', 'z3 %s, cvc5' % _z3v(),
                      'contracts of numpy/scipy primitives: pydv/npstub.py, pydv/stubs.py'] + tru,
        evaluations=ev,
        distinct_nontrivial=sum(r['distinct'] for r in bres),
        rule='run-time contracts: seeded inputs (sizes 0..40, grids, duplicates, scales, dtypes, source literals); '
             'counted once per distinct input record',
        samples=samples,
        run_time={k: v for r in bres[:1] for k, v in r['contracts'].items()},
    )
    return dict(property=prop, tier=a.tier if a.tier in TIERS else 'quick', seed=a.seed,
                level='proof' if n_ob else 'exploration', coverage=cov,
                assumptions=['floating-point arithmetic is treated as real arithmetic and int64 as unbounded in the obligations '
                             '(rounding and overflow are only exercised by the run-time contracts)',
                             'NaN/infinite coordinates are outside the preconditions unless a contract names them'],
                wall_s=round(wall, 2), violations=nviol)


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())
