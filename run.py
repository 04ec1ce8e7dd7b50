#!/opt/veriftools/pyvenv/bin/python3
"""run.py PROPERTY [--tier quick|thorough]: decides one property by symbolic
execution of the repository's code and SMT; see DESIGN.md."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from irsym import build  # noqa


def worker(job, sink=None):
    unit, bc, entry, opts, budget = job
    t0 = time.time()
    res = {'entry': entry['fn'], 'unit': unit['name']}
    try:
        import resource
        lim = int(opts.get('mem_gb', 10) * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        from irsym.llvmir import Module
        from irsym.execute import Engine
        o = dict(opts)
        o['deadline'] = t0 + budget
        o['sink'] = sink
        m = Module(bc)
        if entry['fn'] not in m.fns:
            raise RuntimeError('harness entry %s missing from the encoding' % entry['fn'])
        e = Engine(m, o)
        if 'setup' in entry:
            entry['setup'](e)
        ends = e.run(entry['fn'])
        s = e.stats
        res.update(ends=ends, violations=e.violations, inconclusive=e.inconclusive[:20], notes=e.notes[:20],
                   paths=s.paths, instrs=s.instrs, queries=s.queries, solver_s=round(s.solver_s, 3), forks=s.forks,
                   asserts=s.asserts, structural=s.proved_structural, solver=s.proved_solver, nf=s.proved_nf,
                   unknown=s.unknown, feas_unknown=s.feas_unknown, reached=s.reached, fns=sorted(s.fns),
                   witnesses=e.witnesses[:o.get('max_witnesses', 6)], thrown=s.thrown)
    except Exception as ex:
        if type(ex).__name__ in ('Unsupported', 'Blowup', 'MemoryError'):
            # the entry is undecided; the others still count
            res.update(violations=getattr(locals().get('e'), 'violations', []), witnesses=[], fns=[], paths=0, reached={}, ends={},
                       notes=[traceback.format_exc()[-1500:]], undecided=True,
                       inconclusive=['%s: %s' % (type(ex).__name__, ex)])
        else:
          res.update(error='%s: %s' % (type(ex).__name__, ex), tb=traceback.format_exc()[-3000:])
    res['wall'] = round(time.time() - t0, 2)
    return res


def child(job, conn):
    conn.send(worker(job, lambda v: conn.send({'partial': v})))
    conn.close()
    os._exit(0)


def native_child(u, work, conn):
    try:
        conn.send((True, build.native(u, work)))
    except Exception as e:
        conn.send((False, str(e)))
    conn.close()
    os._exit(0)


def schedule(jobs, deadline, nproc=int(os.environ.get('VERIF_JOBS', '8'))):
    ctx = mp.get_context('fork')
    results = [None] * len(jobs)
    pend = list(range(len(jobs)))
    run = {}
    part = {}
    while pend or run:
        while pend and len(run) < nproc and (time.time() < deadline or not run):
            k = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(jobs[k], w))
            p.start()
            w.close()
            run[k] = (p, r, time.time())
        for k in list(run):
            p, r, t = run[k]
            if r.poll(0.02):
                try:
                    x = r.recv()
                    if 'partial' in x:
                        part.setdefault(k, []).append(x['partial'])
                        continue
                    results[k] = x
                except EOFError:
                    results[k] = None
                p.join(10)
            elif p.is_alive() and time.time() - t < jobs[k][4] + 30 and time.time() < deadline:
                continue
            elif p.is_alive():
                p.kill()
            if results[k] is None:
                results[k] = {'entry': jobs[k][2]['fn'], 'unit': jobs[k][0]['name'], 'violations': part.get(k, []), 'witnesses': [],
                              'inconclusive': ['worker ended without an answer (time or memory)'], 'fns': [], 'paths': 0,
                              'reached': {}, 'ends': {}, 'killed': True, 'wall': round(time.time() - t, 1)}
            del run[k]
        time.sleep(0.01)
    return results


def fmt_val(kind, v):
    return repr(float(v)) if kind == 'f64' else str(int(v))


def run_native(binary, entry, inputs, path, timeout=120, env=None):
    import subprocess
    with open(path, 'w') as f:
        for n, k, v in inputs:
            f.write('%s %s\n' % (n.replace(' ', '_'), fmt_val(k, v)))
    ev = dict(os.environ)
    ev['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99'
    ev['OMP_NUM_THREADS'] = '1'
    ev.update(env or {})
    try:
        p = subprocess.run([binary, path, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ev,
                           cwd=os.path.dirname(binary))
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return -99, 'TIMEOUT'


def confirmed(rc, out, kind):
    if 'REPLAY-ASSUME-FAILED' in out:
        return False
    if kind == 'overflow':
        return 'runtime error' in out
    if 'REPLAY-FAIL' in out or 'AddressSanitizer' in out:
        return True
    if kind == 'divzero':
        return 'runtime error' in out or rc < 0
    if kind == 'nontermination':
        return out == 'TIMEOUT'
    return rc < 0 and rc != -99


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--unit')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = importlib.import_module('props.' + prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    rc = 2
    try:
        rc = go(a, prop, seed, spec, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work kept in', work)
    sys.exit(rc)


def go(a, prop, seed, spec, work, t0):
    thorough = a.tier == 'thorough'
    budget = getattr(spec, 'BUDGET_T', 2400) if thorough else getattr(spec, 'BUDGET', 240)
    units = [u for u in spec.UNITS if thorough or not u.get('thorough_only')]
    if a.unit:
        units = [u for u in units if u['name'] == a.unit]
    if any(u.get('ekf') for u in units):
        build.gen_ekf(work)
    if hasattr(spec, 'prepare'):
        spec.prepare(work, build)
    known = load_known(prop)
    jobs = []
    bcs = {}
    for u in units:
        bcs[u['name']] = build.encode(u, work)
        for en in u['entries']:
            if isinstance(en, str):
                en = {'fn': en}
            if en.get('thorough_only') and not thorough:
                continue
            if a.only and en['fn'] != a.only:
                continue
            o = dict(u.get('opts', {}))
            o.update(en.get('opts', {}))
            if thorough:
                o.update(en.get('opts_thorough', {}))
                o['assert_timeout_ms'] = o.get('assert_timeout_ms', 30000) * 4
            o['thorough'] = thorough
            jobs.append((u, bcs[u['name']], en, o, budget * en.get('weight', 1.0)))
    # the native (replay) binaries are built while the solver works
    nb = {}
    for u in units:
        if any(j[0] is u for j in jobs):
            ctx = mp.get_context('fork')
            rp, wp = ctx.Pipe(False)
            pr = ctx.Process(target=native_child, args=(u, work, wp))
            pr.start()
            wp.close()
            nb[u['name']] = (pr, rp)
    jobs.sort(key=lambda j: -j[2].get('cost', 1))
    results = schedule(jobs, t0 + getattr(spec, 'WALL_T' if thorough else 'WALL', 7200 if thorough else 600))
    # ---- replay violations, validate witnesses
    natives = {}

    def nat(u):
        if u['name'] not in natives:
            pr, rp = nb[u['name']]
            ok, x = rp.recv()
            pr.join()
            if not ok:
                raise build.BuildError(x)
            natives[u['name']] = x
        return natives[u['name']]
    umap = {u['name']: u for u in units}
    confirmed_v, unrepro, knownhits = [], [], []
    validated, obs_cmp, obs_bad = 0, 0, []
    errors = [r for r in results if 'error' in r]
    for r in results:
        if 'error' in r:
            continue
        u = umap[r['unit']]
        permsg = {}
        for k, v in enumerate(r['violations']):
            permsg[v['msg']] = permsg.get(v['msg'], 0) + 1
            if permsg[v['msg']] > 3 or k >= 30:
                continue
            if any(w['msg'] == v['msg'] and rr is r for rr, w, _ in confirmed_v + knownhits):
                continue
            pth = os.path.join(HERE, 'evidence', 'replay_%s_%s_%d.txt' % (prop, r['entry'], k))
            env = u.get('replay_env')
            rcode, out = run_native(nat(u), r['entry'], v['inputs'], pth, env=env,
                                    timeout=20 if v['kind'] == 'nontermination' else 120)
            v['native'] = out[-1500:]
            v['replay'] = pth
            if confirmed(rcode, out, v['kind']):
                kf = match_known(known, r['entry'], v)
                (knownhits if kf else confirmed_v).append((r, v, kf))
            else:
                unrepro.append((r, v))
        if u.get('validate', True) and r['witnesses']:
            for w in r['witnesses']:
                pth = os.path.join(work, 'wit.txt')
                rcode, out = run_native(nat(u), r['entry'], w['inputs'], pth, env=u.get('replay_env'))
                if 'REPLAY-ASSUME-FAILED' in out:
                    continue
                validated += 1
                if 'REPLAY-FAIL' in out or 'AddressSanitizer' in out:
                    # the real code breaks the assertion on a solver-chosen input
                    v = {'kind': 'assert', 'msg': 'real code disagrees with the encoding on a witness: ' +
                         '; '.join(l for l in out.splitlines() if 'REPLAY-FAIL' in l or 'AddressSanitizer' in l)[:300],
                         'inputs': w['inputs'], 'native': out[-1500:]}
                    pth2 = os.path.join(HERE, 'evidence', 'replay_%s_%s_w.txt' % (prop, r['entry']))
                    shutil.copy(pth, pth2)
                    v['replay'] = pth2
                    if not r['violations']:
                        kf = match_known(known, r['entry'], v)
                        (knownhits if kf else confirmed_v).append((r, v, kf))
                nobs = {}
                for l in out.splitlines():
                    if l.startswith('OBS '):
                        _, n, kd, val = l.split()
                        nobs.setdefault(n, []).append((kd, val))
                for n, kd, val in w['obs']:
                    lst = nobs.get(n)
                    if not lst:
                        continue
                    nk, nv = lst.pop(0)
                    obs_cmp += 1
                    if kd == 'f64':
                        x, y = float(val), float(nv)
                        if not (x == y or abs(x - y) <= 1e-6 * max(1, abs(x), abs(y)) or (x != x and y != y)):
                            obs_bad.append((r['entry'], n, x, y))
                    elif int(val) != int(nv):
                        obs_bad.append((r['entry'], n, val, nv))
    # ---- vacuity
    vac = []
    for r in results:
        if 'error' in r:
            continue
        en = [j[2] for j in jobs if j[2]['fn'] == r['entry'] and j[0]['name'] == r['unit']][0]
        if not r['violations'] and not r.get('undecided') and not r.get('killed'):
            for t in en.get('reach', ['end']):
                if r['reached'].get(t, 0) <= 0:
                    vac.append('%s: witness "%s" not reached' % (r['entry'], t))
    inconc = [(r['entry'], x) for r in results if 'error' not in r for x in r['inconclusive']]
    fns = sorted(set(f for r in results if 'error' not in r for f in r['fns']))
    S = lambda k: sum(r.get(k, 0) for r in results if 'error' not in r)
    dem = demangle([f for f in fns])
    repo_fns = [d for d in dem if 'mc::' in d or d.startswith('h_')]
    ev = {
        'property': prop, 'tier': a.tier, 'seed': seed, 'level': getattr(spec, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': S('paths'), 'transitions': S('instrs'), 'traces_validated_against_impl': validated,
            'samples': [{'entry': r['entry'], 'tag': w['tag'],
                         'inputs': [(n, fmt_val(k, v)) for n, k, v in w['inputs'][:12]]}
                        for r in results if 'error' not in r for w in r['witnesses'][:1]][:8],
            'states_meaning': 'symbolic paths completed; transitions = IR instructions executed symbolically',
            'assertions_decided': S('asserts'), 'assertions_by_solver': S('solver'),
            'assertions_by_normal_form': S('nf'), 'assertions_structurally_equal': S('structural'),
            'solver_queries': S('queries'), 'solver_seconds': round(S('solver_s'), 2),
            'symbolic_forks': S('forks'), 'paths_ending_in_exception': S('thrown'),
            'observations_compared_with_native': obs_cmp,
            'functions_encoded': len(fns), 'repository_functions_encoded': repo_fns[:200],
            'bounds': getattr(spec, 'BOUNDS', []),
            'entries': [{k: r.get(k) for k in ('entry', 'ends', 'paths', 'asserts', 'solver', 'nf', 'structural', 'queries',
                                               'solver_s', 'wall', 'reached', 'unknown', 'error', 'notes')}
                        for r in results],
            'inconclusive': ['%s: %s' % x for x in inconc][:40],
            'vacuity_failures': vac,
            'counterexamples_not_reproduced': ['%s: %s' % (r['entry'], v['msg']) for r, v in unrepro],
            'encoding_vs_native_disagreements': [str(x) for x in obs_bad][:10],
            'known_findings_hit': len(knownhits),
        },
        'assumptions': getattr(spec, 'ASSUMPTIONS', []) + COMMON,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed_v),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r, v, kf in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf))
    print('%s %s: %d entries, %d paths, %d assertions (%d solver, %d normal form, %d structural), %d queries, '
          'solver %.1fs, %d witnesses validated natively, wall %.1fs' % (
              prop, a.tier, len(results), S('paths'), S('asserts'), S('solver'), S('nf'), S('structural'), S('queries'),
              S('solver_s'), validated, time.time() - t0))
    if a.v:
        for r in results:
            print('  ', {k: r.get(k) for k in ('entry', 'ends', 'paths', 'instrs', 'asserts', 'solver', 'nf', 'structural',
                                               'queries', 'solver_s', 'wall', 'reached', 'unknown', 'feas_unknown', 'error')})
            for n in r.get('notes', []):
                print('      note:', n)
            if 'tb' in r:
                print(r['tb'])
    for e, x in inconc[:20]:
        print('INCONCLUSIVE %s: %s' % (e, x))
    for x in vac:
        print('VACUITY', x)
    for r, v in unrepro:
        print('NOT-REPRODUCED %s: %s' % (r['entry'], v['msg']))
        if a.v:
            print('     ', v['inputs'][:40], v['native'][-400:])
    for x in obs_bad[:10]:
        print('ENCODING-MISMATCH', x)
    if confirmed_v:
        for r, v, kf in confirmed_v:
            print('  %s: %s' % (r['entry'], v['msg']))
            print('  inputs:', ', '.join('%s=%s' % (n, fmt_val(k, x)) for n, k, x in v['inputs'][:30]))
            print('  native:', v['native'][-300:].strip())
        seen = set()
        for r, v, kf in confirmed_v:
            if v['replay'] not in seen:
                seen.add(v['replay'])
                print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        return 1
    if errors:
        for r in errors:
            print('ERROR in %s: %s\n%s' % (r['entry'], r['error'], r.get('tb', '')))
        return 2
    return 0


COMMON = [
    'clang 18 -O2 IR stands for the shipped gcc -O3 binary (same sources, Eigen vectorisation off); solver-chosen '
    'witnesses are re-run on the gcc build',
    'mc::check(false) and C++ throws end the path; logging/printing functions have empty bodies',
    'memory allocation never fails; objects are separate, every access is bounds- and lifetime-checked',
]


def demangle(names):
    import subprocess
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        return p.stdout.decode().split('\n')
    except Exception:
        return names


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]


def match_known(known, entry, v):
    """a finding matches by harness entry, message prefix and (optionally) a
    predicate over the failing input"""
    for k in known:
        if k['entry'] == entry and v['msg'].startswith(k['msg']):
            return k['what']
    return None


if __name__ == '__main__':
    main()
