#!/usr/bin/env python3
"""record the names of parameters and locals the contracts use (run when contracts are written)"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'vf'))
import canon, gen_ev
out = {'ev': {}}
for m in gen_ev.MODULES:
    r = {}
    for it in gen_ev.scan('/repo', m):
        if it.kind == 'impl':
            pre, grp = gen_ev.impl_kind(it)
            if pre is None:
                continue
            for x in it.inner:
                if x.kind == 'fn':
                    r[pre + x.name] = canon.record(x)
    for k, v in r.items():
        if k in out['ev'] and out['ev'][k] != v:
            print('differs', m, k, v['params'], out['ev'][k]['params'])
        out['ev'].setdefault(k, v)
json.dump(out, open(os.path.join(H, 'vf/locals.json'), 'w'), indent=0, sort_keys=True)
