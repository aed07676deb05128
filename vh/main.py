"""Command line of the checks; see /verif/check."""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import core

PROPS = {  # property -> module that defines its Check (as CHECKS[pid])
}


def registry():
    path = os.path.join(core.VERIF, 'vh', 'registry.json')
    with open(path) as f:
        return json.load(f)


def load(pid):
    mod = importlib.import_module('vh.' + registry()[pid])
    return mod.CHECKS[pid]


def load_all():
    for pid in registry():
        core.strategies_selftest(load(pid))


def assert_repo():
    import ndspy
    if not os.path.realpath(ndspy.__file__).startswith(core.REPO_PKG):
        raise core.HarnessError(f'ndspy was imported from {ndspy.__file__}')


def replay(check, path):
    body = core.read_replay(path)
    facet = check.facet(body['facet'])
    if body.get('mode') == 'session':
        bad = core.run_facet(facet, body['seed'], body['n'], core.Stats())
        if bad:
            return bad[1]
        return None
    try:
        core.run_case(facet, body['case'])
    except core.Violation as e:
        return str(e)
    except core.CaseTimeout:
        return 'did not finish'
    return None


def run_check(pid, tier, seed, only=None):
    t0 = time.time()
    check = load(pid)
    violations = []  # (facet, replay path, message)
    merged = {}

    # Saved cases first (they bypass Hypothesis)
    corpus_dir = os.path.join(core.VERIF, 'corpus', pid)
    corpus_n = 0
    if os.path.isdir(corpus_dir):
        for name in sorted(os.listdir(corpus_dir)):
            path = os.path.join(corpus_dir, name)
            msg = replay(check, path)
            corpus_n += 1
            if msg is not None:
                violations.append((core.read_replay(path)['facet'], path, msg))

    ctx = multiprocessing.get_context('fork')
    procs = []
    for shard in range(core.SHARDS):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=core.worker, args=(check, tier, seed, shard, w, only))
        p.start()
        w.close()
        procs.append((p, r))

    errors = []
    known = set()
    pending = {r: p for p, r in procs}
    stop = False
    while pending and not stop:
        for r in multiprocessing.connection.wait(list(pending)):
            p = pending.pop(r)
            try:
                res = r.recv()
            except EOFError:
                p.join()
                errors.append(f'worker died with exit code {p.exitcode}')
                continue
            p.join()
            if res['error']:
                errors.append(res['error'])
            for name, e in res['facets'].items():
                m = merged.setdefault(name, {'evaluations': 0, 'distinct': set(),
                                             'labels': {}, 'samples': [], 'wall': 0})
                m['evaluations'] += e['evaluations']
                m['distinct'].update(e['distinct'])
                m['samples'] += e['samples']
                m['wall'] = max(m['wall'], e['wall'])
                known.update(e['known'])
                for l, k in e['labels'].items():
                    m['labels'][l] = m['labels'].get(l, 0) + k
            if res['violation']:
                facet, case, message, mode, extra = res['violation']
                path = core.write_replay(pid, facet, case, message, mode, extra)
                violations.append((facet, path, message))
                stop = True
    for p in pending.values():
        p.terminate()
        p.join()

    wall = time.time() - t0
    samples = []
    for name, m in merged.items():
        samples += [{'facet': name, 'case': s} for s in m['samples'][:3]]
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(m['evaluations'] for m in merged.values()) + corpus_n,
            'distinct_nontrivial': sum(len(m['distinct']) for m in merged.values()),
            'rule': check.rule,
            'samples': samples[:12],
            'facets': {name: {'evaluations': m['evaluations'],
                              'distinct_nontrivial': len(m['distinct']),
                              'rule': check.facet(name).rule,
                              'classes': dict(sorted(m['labels'].items())),
                              'wall_s': round(m['wall'], 2)}
                       for name, m in merged.items()},
            'saved_cases_replayed': corpus_n,
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k in sorted(known):
        print(f'KNOWN-FINDING: property={pid} {k}')
    for facet, path, message in violations:
        print(f'[{pid}/{facet}] {message}')
        print(f'VIOLATION property={pid} replay={path}')
    if violations:
        return 1
    if errors:
        for e in errors[:3]:
            print('CHECK ERROR:', e, file=sys.stderr)
        return 2
    print(f'{pid}: held on {evidence["coverage"]["evaluations"]} cases '
          f'({evidence["coverage"]["distinct_nontrivial"]} distinct non-trivial), {wall:.1f} s')
    return 0


def main(argv):
    pid = argv[0]
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    assert_repo()
    if len(argv) > 2 and argv[1] == '--replay':
        msg = replay(load(pid), argv[2])
        if msg is None:
            print(f'{pid}: {argv[2]} holds')
            return 0
        print(msg)
        print(f'VIOLATION property={pid} replay={argv[2]}')
        return 1
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        raise core.HarnessError(f'unknown tier {tier}')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = argv[2:] or None
    return run_check(pid, tier, seed, only)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
