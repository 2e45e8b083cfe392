#!/usr/bin/env python3
"""Decide one property: check.py ID [--tier quick|thorough] [--replay FILE].

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the machinery failed."""
import json, os, random, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, plans, proofs


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = args[args.index('--replay') + 1] if '--replay' in args else None
    t0 = time.time()
    scratch = core.scratch_dir()
    try:
        rc = decide(pid, tier, seed, replay, scratch, t0)
    except core.Broken as e:
        print('ERROR: the check of %s could not run: %s' % (pid, e))
        rc = 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(pid, tier, seed, replay, scratch, t0):
    plan = plans.PLANS[pid]
    ctx = plans.Context(pid, tier, seed, random.Random('%s/%s' % (pid, seed)), scratch)
    if replay:
        r = json.load(open(replay))
        units = [recorded(r)]
        traced, replayed = (units, []) if not any(o.get('want') for o in r['ops']) else ([], units)
    else:
        traced, replayed = plan.build(ctx)
    core.run_units(traced + replayed, scratch)
    t1 = time.time()
    bad = core.compare(replayed)
    judged = sum(1 for u in replayed for o in u.ops if o.want is not None)
    machine = plan.machine
    b, n = core.judge(machine, traced, scratch)
    bad += b
    judged += n
    if tier == 'thorough' and not replay and pid in proofs.DESIGNS:
        ctx.extra['designs_proved'] = proofs.run(pid, scratch)
    return report(pid, plan, ctx, tier, seed, traced, replayed, bad, judged, t0, t1, bool(replay))


def recorded(r):
    def make():
        for o in r['ops']:
            w = o.get('want')
            yield core.Op(o['op'], [int(x) for x in o['xs']], [bytes.fromhex(s) for s in o['ss']], o['aux'],
                          silent=o.get('silent', False),
                          want=None if w is None else (w[0], [int(x) for x in w[1]], [bytes.fromhex(s) for s in w[2]]))
    return core.Unit(make, 'replay')


def report(pid, plan, ctx, tier, seed, traced, replayed, bad, judged, t0, t1, isreplay):
    known = json.load(open(os.path.join(core.VERIF, 'known-findings.json')))['findings']
    fresh, reported = [], set()
    for u, i, v in bad:
        op = u.ops[i] if i is not None else None
        hit = None
        for k in known:
            if k['property'] == pid and op is not None and k['op'] == op.op and \
               [int(x) for x in k['xs']] == op.xs and k['ss'] == [s.hex() for s in op.ss] and k['verdict'] == v:
                hit = k
        if hit is None:
            fresh.append((u, i, v))
        elif hit['what'] not in reported:
            reported.add(hit['what'])
            print('KNOWN-FINDING: property=%s %s' % (pid, hit['what']))
    all_ops = [o for u in traced + replayed for o in u.ops]
    keys = {o.key() for o in all_ops if not o.silent and plan.nontrivial(o)}
    sample = []
    rnd = random.Random(seed)
    pool = [o for o in all_ops if not o.silent and plan.nontrivial(o)]
    for o in rnd.sample(pool, min(6, len(pool))):
        sample.append(o.shown())
    cov = {'evaluations': judged, 'distinct_nontrivial': len(keys), 'rule': plan.rule, 'samples': sample,
           'units': len(traced) + len(replayed), 'calls': len(all_ops)}
    if plan.level == 'model_checking':
        cov.update(states=ctx.states, transitions=ctx.transitions,
                   traces_validated_against_impl=sum(1 for u in traced + replayed if u.ops))
    ops = {}
    for o in all_ops:
        ops[o.op] = ops.get(o.op, 0) + 1
    cov['calls_per_operation'] = ops
    cov.update(ctx.extra)
    if not isreplay:
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': plan.level, 'coverage': cov,
              'assumptions': plan.assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': len(fresh)}
        tmp = os.path.join(core.VERIF, 'evidence', pid + '.json.tmp%d' % os.getpid())
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(core.VERIF, 'evidence', pid + '.json'))
    print('%s %s: %d units, %d calls, %d judged, %d distinct non-trivial; code %.0f s, total %.0f s' % (
        pid, tier, len(traced) + len(replayed), len(all_ops), judged, len(keys), t1 - t0, time.time() - t0))
    if not fresh:
        if not isreplay and judged < plan.least:
            raise core.Broken('only %d records were judged' % judged)
        return 0
    for n, (u, i, v) in enumerate(fresh[:5]):
        last = len(u.ops) - 1 if i is None else i
        rec = {'property': pid, 'machine': plan.machine, 'unit': u.name, 'verdict': v, 'seed': seed,
               'repo': core.REPO, 'rerun': 'python3 /verif/check.py %s --replay <this file>' % pid,
               'ops': [dict(op=o.op, xs=[str(x) for x in o.xs], ss=[s.hex() for s in o.ss], aux=[str(a) for a in o.aux],
                            silent=o.silent,
                            want=None if o.want is None else [o.want[0], [str(x) for x in o.want[1]], [s.hex() for s in o.want[2]]],
                            outcome=o.shown()) for o in u.ops[:last + 1]]}
        path = os.path.join(core.OUT, '%s-%d.json' % (pid, n))
        json.dump(rec, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s, unit %s: %s' % (v, u.name, json.dumps(u.ops[last].shown()) if u.ops else ''))
    if len(fresh) > 5:
        print('  and %d more' % (len(fresh) - 5))
    return 1


main()
