#!/opt/veriftools/pyvenv/bin/python
"""check.py <property id> [--tier quick|thorough] [--only harness]

Rebuilds the harness crate (and with it /repo's current working tree) to LLVM IR, executes the
property's harnesses symbolically, and lets the solver decide every assertion on every path.
Exit 0: held on everything explored.  Exit 1: violated, confirmed by native replay.  Exit 2: no answer."""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
BUILD = os.path.join(HERE, '.build')
FLAGS = '-C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TARGET_DIR=BUILD, RUSTFLAGS=FLAGS, CARGO_TERM_COLOR='never')


def die(msg, code=2):
    print(msg)
    sys.stdout.flush()
    sys.exit(code)


def fresh():
    for p in ('libfranka-rs-*', 'vharness-*'):
        for d in glob.glob(os.path.join(BUILD, 'release', '.fingerprint', p)):
            shutil.rmtree(d, ignore_errors=True)


def build_ir():
    if not os.environ.get('VERIF_REUSE'):
        fresh()
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['cargo', 'rustc', '--release', '--offline', '--', '--emit=llvm-ir'], cwd=os.path.join(HERE, 'harness'),
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die('build of the symbolic harness failed\n' + r.stdout[-4000:])
    lls = sorted(glob.glob(os.path.join(BUILD, 'release/deps/vharness-*.ll')), key=os.path.getmtime)
    if not lls:
        die('no IR produced')
    for p in lls[:-1]:
        os.remove(p)
    return lls[-1]


def start_replay_build():
    log = open(os.path.join(BUILD, 'replay.log'), 'w')
    return subprocess.Popen(['cargo', 'build', '--release', '--offline', '--features', 'replay'], cwd=os.path.join(HERE, 'harness'),
                            env=ENV, stdout=log, stderr=subprocess.STDOUT)


def replay(name, vals, timeout=20):
    exe = os.path.join(BUILD, 'release', 'vharness')
    try:
        r = subprocess.run([exe, name], input=' '.join(str(v) for v in vals), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
        return r.returncode, r.stdout, r.stderr[-2000:]
    except subprocess.TimeoutExpired:
        return 124, 'TIMEOUT', ''


def trace_of(out):
    t = []
    for ln in out.splitlines():
        w = ln.split()
        if w and w[0] in ('A', 'R') and len(w) == 2:
            t.append([w[0], int(w[1])])
        elif w and w[0] == 'O':
            t.append(['O', int(w[1]), int(w[2])])
    return t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    a = ap.parse_args()
    if a.setup:
        build_ir()
        rb = start_replay_build()
        sys.exit(rb.wait())
    import props
    P = props.PROPS[a.prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    os.environ.pop('VERIF_DEEP', None)
    if tier == 'thorough':
        os.environ['VERIF_DEEP'] = '1'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ll = build_ir()
    t_build = time.time() - t0
    rb = start_replay_build()
    import engine
    engine.load(ll)
    t_load = time.time() - t0 - t_build

    hs = []
    for h in P['harnesses']:
        h = dict(props.DEFAULT, **h)
        if a.only and h['name'] != a.only:
            continue
        if tier == 'quick' and h['tier'] == 'thorough':
            continue
        hs.append(h)
    hs.sort(key=lambda h: -h['weight'])
    pool = engine.Pool(a.jobs)
    jobs = []
    for h in hs:
        o = dict(h)
        o['timeout'] = h['timeout'] if tier == 'quick' else h.get('thorough_timeout', max(h['timeout'], 3000))
        if tier == 'thorough':
            o['assert_ms'] = h['assert_ms'] * 3
        jobs.append((h, engine.start(h['name'], o, pool)))
    results = []
    for h, j in jobs:
        os.waitpid(j['pid'], 0)
        recs = engine.collect(j)
        results.append((h, recs, time.time() - j['t0']))
    t_explore = time.time() - t0 - t_build - t_load
    rb.wait()
    if rb.returncode:
        die('build of the replay binary failed\n' + open(os.path.join(BUILD, 'replay.log')).read()[-4000:])

    problems, viols, known_hits = [], [], []
    tot = dict(paths=0, forks=0, queries=0, time=0.0, solver_asserts=0, folded=0, assumed=0, nodes=0)
    funcs, samples, validated, real_dev = set(), [], 0, 0
    per = []
    nblocks = 0
    for h, recs, wall in results:
        name = h['name']
        kinds, reach, asserts = {}, set(), {}
        for r in recs:
            kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
            reach.update(r['reach'])
            for k, (n, f) in r['asserts'].items():
                c = asserts.setdefault(int(k), [0, 0])
                c[0] += n
                c[1] += f
            tot['queries'] += r['queries']
            tot['time'] += r['time']
            tot['forks'] += r['forks']
            tot['assumed'] += r['assumed_feas']
            tot['nodes'] += r['nodes']
            funcs.update(r['functions'])
        nblocks += max([r['blocks'] for r in recs] or [0])
        tot['paths'] += len(recs)
        tot['solver_asserts'] += sum(c[0] for c in asserts.values())
        tot['folded'] += sum(c[1] for c in asserts.values())
        hv = [(r, v) for r in recs for v in r['viol']]
        if len(recs) != 1 + sum(r['forks'] for r in recs):
            problems.append('%s: lost paths (%d of %d)' % (name, len(recs), 1 + sum(r['forks'] for r in recs)))
        for r in recs:
            if r['kind'] in ('error', 'timeout'):
                problems.append('%s: %s %s' % (name, r['kind'], r['info'][-1500:]))
            if r['unknown']:
                problems.append('%s: solver undecided on assertion(s) %s' % (name, r['unknown']))
        if not hv:
            for i in h['reach']:
                if i not in reach:
                    problems.append('%s: vacuous, witness %d not reached (%s)' % (name, i, kinds))
            for i in h['asserts']:
                if i not in asserts:
                    problems.append('%s: vacuous, assertion %d never evaluated' % (name, i))
        # native confirmation of counterexamples
        tried = {}
        for r, v in hv:
            if tried.get(v['id'], 0) >= 6 or any(x['id'] == v['id'] for x in viols if x['harness'] == name):
                continue
            tried[v['id']] = tried.get(v['id'], 0) + 1
            ok = False
            for c in v['cands']:
                rc, out, err = replay(name, c)
                if rc == 10 or (rc == 124 and v['kind'] == 'hang'):
                    viols.append({'harness': name, 'id': v['id'], 'kind': v['kind'], 'values': c, 'native': out[-3000:], 'stderr': err})
                    ok = True
                    break
            if not ok:
                problems.append('%s: counterexample for assertion %d does not reproduce natively (%s)' % (name, v['id'], out[-300:]))
        # translator validation: models of explored paths against the native build
        sm = [r for r in recs if r['sample'] and r['kind'] != 'infeasible']
        lim = h['validate'] if tier == 'quick' else h['validate'] * 5
        step = max(1, len(sm) // lim)
        for r in sm[::step][:lim]:
            rc, out, err = replay(name, r['sample']['vals'])
            nt = trace_of(out)
            st = r['sample']['trace']
            same = len(nt) == len(st) and all(
                x[0] == y[0] and x[1] == y[1] and (x[0] != 'O' or y[2] is None or x[2] == y[2]) for x, y in zip(nt, st))
            if rc == 10:
                if any(v['harness'] == name for v in viols):
                    pass
                elif not hv:
                    # the concrete run violates an assertion the symbolic run proved: report what really fails
                    viols.append({'harness': name, 'id': int(out.split('VIOLATED')[1].split()[0]), 'kind': 'replay of a path model',
                                  'values': r['sample']['vals'], 'native': out[-3000:], 'stderr': err})
            elif same and rc == 0:
                validated += 1
            elif r['sample']['exact']:
                problems.append('%s: native replay of an explored path diverges from the symbolic run (rc %d)\n  native %s\n  symbolic %s'
                                % (name, rc, nt[-6:], st[-6:]))
            else:
                real_dev += 1
            if len(samples) < 6:
                samples.append({'harness': name, 'path': r['kind'], 'inputs': r['sample']['vals'][:24], 'trace_tail': st[-8:]})
        per.append({'harness': name, 'what': h['what'], 'bounds': h['bounds'], 'paths': len(recs), 'path_kinds': kinds, 'reached': sorted(reach),
                    'assertions': {str(k): {'solver': c[0], 'by_simplification': c[1]} for k, c in sorted(asserts.items())}, 'wall_s': round(wall, 2)})
        if a.verbose:
            print(name, 'paths', len(recs), kinds, 'reach', sorted(reach), 'asserts', asserts, 'q', sum(r['queries'] for r in recs),
                  '%.1fs' % wall)
            sys.stdout.flush()

    problems = list(dict.fromkeys(problems))
    # known findings
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    real = []
    for v in viols:
        hit = None
        for k in kf.get('findings', []):
            if k['property'] == a.prop and k['harness'] == v['harness'] and k['assertion'] == v['id']:
                hit = k
        if hit:
            known_hits.append(hit)
        else:
            real.append(v)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    wall = time.time() - t0
    for k in {json.dumps(k, sort_keys=True): k for k in known_hits}.values():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    lib = sorted(f for f in funcs if 'franka' in f)
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'] + tot['forks'], 'transitions': nblocks,
            'traces_validated_against_impl': validated, 'samples': samples or [{'harness': h['name']} for h, _, _ in results][:1],
            'explanation': 'states: nodes of the symbolic execution tree (completed paths + branch decisions); transitions: LLVM basic blocks '
                           'encoded; every feasible path within the bounds is explored, every assertion on it decided by Z3 (or already true '
                           'after expression simplification)',
            'exhaustive': not problems,
            'paths': tot['paths'], 'solver_queries': tot['queries'], 'solver_time_s': round(tot['time'], 2),
            'assertions_decided_by_solver': tot['solver_asserts'], 'assertions_decided_by_simplification': tot['folded'],
            'branch_feasibility_assumed_after_timeout': tot['assumed'],
            'model_replays_off_by_rounding': real_dev,
            'functions_encoded': len(funcs), 'library_functions_encoded': lib[:400],
            'harnesses': per, 'build_s': round(t_build, 1), 'load_s': round(t_load, 1), 'explore_s': round(t_explore, 1),
            'not_covered': P.get('outside', []),
        },
        'assumptions': props.ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(real),
    }
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d paths, %d queries, solver %.1fs, wall %.1fs, %d model replays agree' % (
        a.prop, tier, len(results), tot['paths'], tot['queries'], tot['time'], wall, validated))
    if real:
        p = os.path.join(HERE, 'evidence', 'replay-%s.json' % a.prop)
        for v in real:
            v['text'] = props.describe(v['harness'], v['id'])
            v['rerun'] = "echo '%s' | %s/release/vharness %s" % (' '.join(map(str, v['values'])), BUILD, v['harness'])
        with open(p, 'w') as f:
            json.dump({'property': a.prop, 'violations': real}, f, indent=1)
        for v in real:
            print('  %s assertion %d (%s): %s' % (v['harness'], v['id'], v['kind'], v['text']))
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        for x in problems[:20]:
            print('note: ' + x)
        sys.stdout.flush()
        sys.exit(1)
    if problems:
        for x in problems[:20]:
            print('NO-ANSWER ' + x)
        sys.stdout.flush()
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
