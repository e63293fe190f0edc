#!/usr/bin/env python3-vt
"""Records which obligations are discharged on the (unchanged) tree in /verif/baseline.json; an obligation that is
not in this list is never reported as a lost proof."""
import argparse, json, os, sys, time, warnings
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
from pydv import verify


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', default=None)
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--jobs', type=int, default=7)
    a = ap.parse_args()
    path = os.path.join(HERE, 'baseline.json')
    base = {'discharged': [], 'contracts': {}}
    if os.path.exists(path):
        base = json.load(open(path))
    reg = verify.load_contracts(a.repo)
    verify._W['reg'] = reg
    props = a.prop.split(',') if a.prop else None
    keys = [k for k, c in reg.items() if c.opts['deductive'] and (props is None or c.prop in props)]
    base['contracts'] = {k: v for k, v in base['contracts'].items() if k in reg and k not in keys}
    base['discharged'] = [n for n in base['discharged'] if '/'.join(n.split('/')[:2]) in base['contracts']]
    res = verify.verify(a.repo, keys, dict(budget=110, prove_ms=4000), a.jobs)
    for r in res:
        st = {}
        for o in r['obligations']:
            st.setdefault(o['name'], set()).add(o['status'])
        open_ = sorted(n for n, s in st.items() if s != {'discharged'})
        base['contracts'][r['contract']] = dict(open=open_, notes=len(set(r['notes'])), paths=r['paths'], completed=r['completed'],
                                               obligations=len(r['obligations']), wall=round(r['wall_s'], 1))
        base['discharged'] += [n for n, s in st.items() if s == {'discharged'}]
        if r['notes'] or open_ or r['wall_s'] > 25:
            print(r['contract'], 'open', open_, 'notes', sorted(set(r['notes']))[:3], 'wall %.1f' % r['wall_s'])
    base['discharged'] = sorted(set(base['discharged']))
    base['contracts'] = dict(sorted(base['contracts'].items()))
    with open(path, 'w') as f:
        json.dump(base, f, indent=0)
    print(len(keys), 'contracts', sum(len(r['obligations']) for r in res), 'obligations',
          sum(1 for r in res for o in r['obligations'] if o['status'] == 'discharged'), 'discharged')


main()
