#!/usr/bin/env python3
"""check.py PROPERTY  --  decide one property on /repo's current tree.

1. extract the functions the property depends on, put them under contract and
   have Verus discharge every obligation (deciding step);
2. when it does not, replay on the real code: a failing input is a VIOLATION;
3. an obligation that fails with every anchor in place and no input found is
   a VIOLATION ... no-failing-input-found;
4. when the extraction or the verifier cannot follow the code (lost anchor,
   unsupported construct, solver limit) the replay search itself is the
   (bounded) check.
"""
import json, os, shutil, sys, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vf'))
REPO = os.environ.get('VP_REPO', '/repo')


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import families
    fam = families.of(prop)
    if tier != 'thorough':
        families.DEADLINE = t0 + 840
    build = os.path.join(HERE, '.build', prop)
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ctx = families.Ctx(prop=prop, tier=tier, seed=seed, build=build, repo=REPO, here=HERE, t0=t0)
    with cf.ThreadPoolExecutor(8) as ex:
        units = list(ex.map(lambda u: families.decide(ctx, fam, u), fam.units(ctx)))
    ctx.units = units
    undecided = [u for u in units if not u.ok]
    deep = tier == 'thorough'
    wit = None
    if undecided or deep or fam.always(ctx):
        # the replay search runs on the parts that are not proved (all of them in the thorough tier)
        names = sorted({n for u in (units if deep else undecided) for n in u.replay}) or fam.always(ctx)
        wit = fam.witness(ctx, names)
    rc = report(ctx, fam, units, undecided, wit, t0)
    if not os.environ.get('VP_KEEP'):
        shutil.rmtree(build, ignore_errors=True)
    sys.stdout.flush()
    return rc


def report(ctx, fam, units, undecided, wit, t0):
    prop = ctx.prop
    known = load_known(ctx)
    alarms = [u for u in undecided if u.alarm]
    viol = 0
    replay = os.path.join('replays', '%s.txt' % prop)
    lines = []
    for u in undecided:
        print('%s %s: %s' % (prop, u.name, u.why()))
    if wit and wit.found and not wit.known(known):
        viol = 1
        lines.append('failing input on the real code:\n' + wit.text + '\n')
        lines.append('replay: ' + wit.cmd + '\n')
    for u in undecided:
        lines.append('--- %s: %s\n%s\n' % (u.name, u.why(), u.rendered))
    tail = ''
    if not viol and alarms and not (wit and wit.found):
        viol, tail = 1, ' no-failing-input-found'
        lines.insert(0, 'failed obligations (no failing input found):\n' + '\n'.join('  %s: %s' % (u.name, f) for u in alarms for f in u.obligations()) + '\n\n')
    if wit and wit.found and wit.known(known):
        for k in wit.known(known):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if viol:
        open(os.path.join(ctx.here, replay), 'w').write('property %s\n' % prop + '\n'.join(lines))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, tail))
    ev = dict(property=prop, tier=ctx.tier, seed=ctx.seed, violations=viol)
    proved = not undecided
    obl = sum(u.verified + len(u.failed) for u in units)
    cov = dict(obligations=obl, discharged=sum(u.verified for u in units), checker_cmd=units[0].cmd if units else '',
               trusted_base=fam.trusted(ctx, units), functions_under_contract=sorted({f for u in units for f in u.functions}),
               back_end='Verus ' + families_version() + ' (Z3)', solver_s=round(sum(u.smt for u in units), 1),
               units=[dict(name=u.name, decided='proved' if u.ok else u.why(), functions=len(u.functions), verified=u.verified, smt_s=round(u.smt, 2), wall_s=round(u.time, 1), slowest=u.slow[:2],
                        **({'note': u.note} if u.note else {}), **({'inlined': u.inlined} if u.inlined else {})) for u in units])
    if wit:
        cov.update(evaluations=wit.cases, distinct_nontrivial=wit.nontriv, rule=wit.rule, samples=wit.samples[:4] or ['(none)'], bounded_parts=[u.name for u in undecided] or wit.why)
    ev['level'] = 'proof' if proved else 'exploration'
    if not proved and 'evaluations' not in cov:
        cov.update(evaluations=0, distinct_nontrivial=0, rule='no replay possible', samples=['(none)'])
    if proved and hasattr(fam, 'coverage'):
        ev['level'], more = fam.coverage(ctx, units, wit)
        cov.update(more)
    ev['coverage'] = cov
    ev['assumptions'] = fam.assumptions(ctx)
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(ctx.here, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %s; %d obligations, %d discharged, %d units, %.0f s%s' % (prop, 'VIOLATED' if viol else 'proved' if proved else 'bounded check passed', cov['obligations'], cov['discharged'], len(units), time.time() - t0,
          '; %d replay cases' % wit.cases if wit else ''))
    return 1 if viol else 0


def families_version():
    import families
    return families.verus_version()


def load_known(ctx):
    out = []
    try:
        for l in open(os.path.join(ctx.here, 'known-findings.txt')):
            if l.startswith('known: property=%s ' % ctx.prop):
                out.append(l.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out


if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:      # an error of the machinery is never reported as a violation
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
