"""Deductive back end: proves contracts over the current source tree."""
import argparse
import glob
import json
import linecache
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
PYDV = os.path.join(HERE, 'pydv') + os.sep


def load_contracts(repo, only=None):
    from pydv import loader, contract, core
    contract.REG.clear()
    core.set_engine(core.Engine())
    sys.path.insert(0, os.path.join(HERE, 'contracts'))
    for p in sorted(glob.glob(os.path.join(HERE, 'contracts', 'C*.py'))):
        L = loader.Loader(repo)
        L.contracts_dir = os.path.join(HERE, 'contracts')
        L.exec_file(os.path.basename(p)[:-3], p)
    return contract.REG


ENGINE_NAMES = ('SymArray', 'SymNum', 'SymBool', 'SymList', 'SymSeq', 'PvSlice', 'GrowList', 'Masked', 'pydv',
                'unexpected keyword', 'positional argument', 'z3', 'BoolRef', 'ArithRef', 'Flags', 'ExprRef', 'MetricValue')


def accidental(e):
    """Was the exception raised by a gap of the engine rather than by the modelled code?"""
    if e.__cause__ is not None and accidental(e.__cause__):
        return True
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    if isinstance(e, (AssertionError, NotImplementedError, RecursionError)) and fn.startswith(PYDV):
        return True
    if fn.startswith(PYDV):
        line = linecache.getline(fn, last.tb_lineno).strip()
        return not line.startswith('raise ')
    if linecache.getline(fn, last.tb_lineno).strip().startswith('raise '):
        return False
    if isinstance(e, (AttributeError, TypeError, KeyError)) and any(n in str(e) for n in ENGINE_NAMES):
        return True
    o = getattr(e, 'obj', None)
    if isinstance(e, AttributeError) and o is not None:
        m = getattr(o, '__module__', None) or getattr(o, '__name__', None) or ''
        if str(m).startswith('pydv') or str(getattr(type(o), '__module__', '')).startswith('pydv'):
            return True
    return 'site-packages' in fn or '/lib/python3' in fn


def run_contract(repo, c, opts, ob_filter=None):
    from pydv import core, loader, symworld
    t0 = time.time()
    e = core.Engine(prove_ms=opts.get('prove_ms', 4000), max_paths=opts.get('max_paths', c.opts.get('max_paths', 1500)),
                    deadline=t0 + opts.get('budget', 60), ob_filter=ob_filter)
    core.set_engine(e)
    prefix = '%s/%s/' % (c.prop, c.name)
    exc_notes = []

    def once():
        L = loader.Loader(repo)
        sk = L.load('skcurve')
        H = symworld.SymH(sk, prefix)
        H.load = L.load
        c.fn(H)
        H.end()
        e.completed = getattr(e, 'completed', 0) + 1

    def on_exc(ex):
        if accidental(ex):
            tb = traceback.extract_tb(ex.__traceback__)
            e.notes.append('unsupported (engine gap): %s: %s at %s' % (
                type(ex).__name__, ex, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4])))
            return
        tb = traceback.extract_tb(ex.__traceback__)
        where = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4])
        n = len(e.obligations)
        e.prove(prefix + 'no-exception', False)
        for o in e.obligations[n:]:
            if o.status != 'discharged':
                o.reason = '%s: %s at %s' % (type(ex).__name__, ex, where)
    e.completed = 0
    try:
        e.explore(once, on_exc)
    except Exception as ex:
        e.notes.append('engine crash: ' + traceback.format_exc()[-800:])
    obs = [dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3), values=o.model,
                reason=str(o.reason)[:300], path=o.path) for o in e.obligations]
    return dict(contract=c.key, obligations=obs, notes=e.notes, paths=e.paths, completed=e.completed,
                solver_s=e.solver_s, wall_s=time.time() - t0, lemmas=sorted(e.lemmas), trusted=sorted(e.trusted))


_W = {}


def _worker(args):
    repo, key, opts, flt = args
    if 'reg' not in _W:
        _W['reg'] = load_contracts(repo)
    f = None
    if flt == 'frame':
        f = lambda n: '/frame:' in n or 'readonly' in n or 'isolated' in n
    try:
        import faulthandler
        return run_contract(repo, _W['reg'][key], opts, f)
    except BaseException as ex:
        return dict(contract=key, obligations=[], notes=['crash: %r %s' % (ex, traceback.format_exc()[-500:])], paths=0,
                    completed=0, solver_s=0.0, wall_s=0.0, lemmas=[], trusted=[])


def verify(repo, keys, opts, jobs=8, flt=None, until=None):
    tasks = [(repo, k, opts, flt) for k in keys]
    if jobs <= 1 or len(tasks) <= 1:
        return [_worker(t) for t in tasks]
    return _farm(tasks, jobs, opts.get('budget', 60) * 1.3 + 25, until)


def _child(conn, task):
    try:
        conn.send(_worker(task))
    except BaseException as ex:
        conn.send(_failed(task[1], 'crash: %r' % (ex,)))
    conn.close()
    os._exit(0)


def _failed(key, why):
    return dict(contract=key, obligations=[], notes=[why], paths=0, completed=0, solver_s=0.0, wall_s=0.0, lemmas=[], trusted=[])


def _farm(tasks, jobs, limit, until=None):
    """One forked process per contract: a solver crash or hang costs that contract only."""
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context('fork')
    todo, live, out = list(tasks)[::-1], {}, []
    start, again = time.time(), set()

    def failed(t, why):
        # a solver that crashed or hung gets one more try
        if t[1] not in again and time.time() - start < 250:
            again.add(t[1])
            todo.append(t)
        else:
            out.append(_failed(t[1], why))
    while todo or live:
        if until is not None and time.time() > until:
            out += [_failed(t[1], 'not verified in this run: its time was used up') for t in todo]
            todo = []
        while todo and len(live) < jobs:
            t = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, t), daemon=True)
            p.start()
            b.close()
            live[a] = (p, t, time.time())
        for c in wait(list(live), timeout=1.0):
            p, t, t0 = live.pop(c)
            try:
                out.append(c.recv())
            except EOFError:
                failed(t, 'the solver process ended unexpectedly')
            c.close()
            p.join(5)
        for c, (p, t, t0) in list(live.items()):
            if time.time() - t0 > limit:
                p.kill()
                p.join(5)
                c.close()
                del live[c]
                failed(t, 'the solver process did not answer in %d s' % limit)
    return out


def main():
    import warnings
    warnings.simplefilter('ignore')
    ap = argparse.ArgumentParser()
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--prop', default=None)
    ap.add_argument('--only', default='*')
    ap.add_argument('--json')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--prove-ms', type=int, default=4000)
    ap.add_argument('--filter', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    import fnmatch
    reg = load_contracts(a.repo)
    keys = [k for k, c in sorted(reg.items()) if c.opts['deductive'] and (a.prop in (None, 'all', c.prop))
            and fnmatch.fnmatch(c.name, a.only)]
    _W['reg'] = reg
    res = verify(a.repo, keys, dict(budget=a.budget, prove_ms=a.prove_ms), a.jobs, a.filter)
    if a.json:
        with open(a.json, 'w') as f:
            json.dump(res, f)
    if not a.json or a.v:
        for r in sorted(res, key=lambda r: r['contract']):
            cnt = {}
            for o in r['obligations']:
                cnt[o['status']] = cnt.get(o['status'], 0) + 1
            print('%-44s %s paths=%d/%d wall=%.1f solver=%.1f' % (r['contract'], cnt, r['completed'], r['paths'], r['wall_s'], r['solver_s']))
            for n in sorted(set(r['notes'])):
                print('      note:', n[:600])
            if r['wall_s'] > 10:
                slow = {}
                for o in r['obligations']:
                    slow[o['name']] = slow.get(o['name'], 0) + o['secs']
                print('      slow:', ', '.join('%s %.1fs' % (k.split('/')[-1], v) for k, v in sorted(slow.items(), key=lambda x: -x[1])[:4]),
                      'proving %.1fs' % sum(slow.values()))
            seen = set()
            for o in r['obligations']:
                if o['status'] != 'discharged' and (o['name'], o['status']) not in seen:
                    seen.add((o['name'], o['status']))
                    print('      %s %s %s %s' % (o['status'], o['name'], o['reason'][:200], json.dumps(o['values'])[:400] if o['values'] else ''))


if __name__ == '__main__':
    main()
