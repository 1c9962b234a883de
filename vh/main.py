"""CLI:  check <module> [--tier quick|thorough] | judge <module> <file> | replay <file> | list"""
import argparse
import glob
import json
import multiprocessing as mp
import os
import sys
import time

from . import core, env

QUICK_BUDGET = 150       # seconds of generation before a run stops early (inconclusive, still exit 0)
THOROUGH_BUDGET = 3000


def known_findings(prop):
    path = os.path.join(env.VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                x = json.loads(line)
                if x['property'] == prop:
                    out.append(x)
    return out


def cmd_check(modname, tier, seed, only=None, scale=1.0, budget=None):
    t0 = time.time()
    module, checks = core.load(modname)
    prop = module.PROPERTY
    nproc = min(8, os.cpu_count() or 1)
    budget = budget or (QUICK_BUDGET if tier == 'quick' else THOROUGH_BUDGET)
    deadline = t0 + budget
    known = known_findings(prop)
    errors, failures = [], []

    # 1. committed regression cases
    replayed = 0
    for path in sorted(glob.glob(os.path.join(env.VERIF, 'corpus', modname, '*.json'))):
        x = json.load(open(path))
        if x['check'] not in checks or (only and x['check'] != only):
            continue
        verdict, payload = core.judge(checks[x['check']], x['case'])
        replayed += 1
        if verdict == 'violation':
            failures.append((x['check'], len(core.dumps(x['case'])), x['case'], payload))
        elif verdict == 'error':
            errors.append(payload)

    # 2. generated search, sharded over processes
    tasks = []
    for k, c in enumerate(module.CHECKS):
        if only and c.name != only:
            continue
        n = max(1, int((c.quick if tier == 'quick' else c.thorough) * scale))
        shards = max(1, min(c.shards, n))
        for s in range(shards):
            tasks.append((modname, c.name, s, max(1, n // shards),
                          seed * 1000003 + k * 1009 + s, deadline,
                          45 if tier == 'quick' else 240))
    tasks.sort(key=lambda t: t[2])
    results = []
    if tasks:
        with mp.get_context('fork').Pool(nproc, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(core.run_shard, tasks, chunksize=1):
                results.append(r)
    per = {}
    for r in results:
        d = per.setdefault(r['check'], {'evaluations': 0, 'digests': set(), 'samples': [],
                                        'labels': {}, 'inconclusive': {}, 'skipped': 0})
        d['evaluations'] += r['evaluations']
        d['digests'] |= set(r['digests'])
        d['samples'] += r['samples']
        d['skipped'] += r['skipped']
        for f in ('labels', 'inconclusive'):
            for k, v in r[f].items():
                d[f][k] = d[f].get(k, 0) + v
        if r['error']:
            errors.append(f"{r['check']} shard {r['shard']}: {r['error']}")
        for (sz, case, msg) in r['failures']:
            failures.append((r['check'], sz, case, msg))

    # 3. judge each failing case again, alone, in a fresh process
    violations, unconfirmed, suppressed = [], 0, []
    by_check = {}
    for f in sorted(failures, key=lambda f: f[1]):
        by_check.setdefault(f[0], []).append(f)
    for name, fs in sorted(by_check.items()):
        done = False
        for (_, _, case, msg) in fs[:12]:
            kf = match_known(known, name, case, msg)
            if kf is not None:
                suppressed.append(kf)
                continue
            again = core.confirm(modname, name, case)
            if again is None:
                unconfirmed += 1
                continue
            violations.append((name, case, again))
            done = True
            break
        if not done and not suppressed:
            print(f'note: a failure of {prop}/{name} did not reproduce alone: {fs[0][3][:400]}')

    # 4. known findings: still there?
    for kf in known:
        if 'case' not in kf or kf.get('check') not in checks:
            continue
        verdict, payload = core.judge(checks[kf['check']], kf['case'])
        if verdict == 'violation':
            print(f"KNOWN-FINDING: property={prop} {kf['what']}")

    # 5. report
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    samples, distinct, evals = [], 0, 0
    for name, d in sorted(per.items()):
        distinct += len(d['digests'])
        evals += d['evaluations']
        for s in d['samples'][:3]:
            samples.append({'check': name, 'case': s})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': distinct,
            'rule': module.RULE,
            'samples': samples or ['(none)'],
            'regression_cases_replayed': replayed,
            'per_check': {name: {'evaluations': d['evaluations'],
                                 'distinct_nontrivial': len(d['digests']),
                                 'inconclusive': d['inconclusive'],
                                 'not_run_time_budget': d['skipped'],
                                 'labels': dict(sorted(d['labels'].items()))}
                          for name, d in sorted(per.items())},
            'unconfirmed_failures': unconfirmed,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(env.VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for name, d in sorted(per.items()):
        print(f"{prop}/{name}: {d['evaluations']} cases, {len(d['digests'])} distinct non-trivial, "
              f"inconclusive {d['inconclusive'] or 0}, labels {dict(sorted(d['labels'].items()))}")
    print(f'wall {ev["wall_s"]}s')
    if violations:
        os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
        for name, case, msg in violations:
            path = os.path.join(env.VERIF, 'replays', f'{prop}-{name}-{core.digest(case)}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'module': modname, 'check': name, 'case': case,
                           'message': msg}, f, indent=1, ensure_ascii=False)
            print(f'--- {prop}/{name}\n{msg[:3000]}\ncase: {core.dumps(case)[:3000]}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        print('HARNESS ERROR (not a verdict on the code):')
        for e in errors[:3]:
            print(e[-4000:])
        return 3
    return 0


def match_known(known, check, case, msg):
    for kf in known:
        if kf.get('check') == check:
            if 'case' in kf and core.dumps(kf['case']) == core.dumps(case):
                return kf
            if kf.get('signature') and kf['signature'] in msg:
                return kf
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('target', nargs='?')
    ap.add_argument('file', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    env.setup()
    if a.cmd == 'check':
        sys.exit(cmd_check(a.target, a.tier, a.seed, a.only, a.scale, a.budget))
    elif a.cmd in ('judge', 'replay'):
        path = a.file or a.target
        x = json.load(open(path))
        modname = a.target if a.file else x['module']
        _, checks = core.load(modname)
        verdict, payload = core.judge(checks[x['check']], x['case'])
        if a.cmd == 'judge':
            print()
            print(json.dumps({'verdict': verdict,
                              'payload': payload if isinstance(payload, str) else ''}))
        else:
            print(f'{modname}/{x["check"]}: {verdict}')
            print(payload if isinstance(payload, str) else payload.labels)
            if verdict == 'violation':
                print(f'VIOLATION property={x.get("property", modname)} replay={os.path.abspath(path)}')
                sys.exit(1)
    elif a.cmd == 'list':
        for path in sorted(glob.glob(os.path.join(env.VERIF, 'vh', 'props', 'p*.py'))):
            m, checks = core.load(os.path.basename(path)[:-3])
            print(m.PROPERTY, os.path.basename(path)[:-3], ' '.join(checks))
    else:
        ap.error('unknown command')


if __name__ == '__main__':
    main()
