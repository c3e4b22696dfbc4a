#!/usr/bin/env python3-vt
"""Check driver:  check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE"""
import os, sys, json, time, tempfile, shutil, subprocess, re, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import multiprocessing as mp
from vc import run, ir, props
from vc import prover as PV
from vc import terms as TM

VERIF = os.path.dirname(os.path.abspath(__file__))
NPROC = int(os.environ.get('VC_JOBS', '8'))


def plain(o):
    r = o['res']
    g = o['goal']
    d = dict(kind=o['kind'], desc=o['desc'], where=o['where'], ok=r.ok, back=r.back, soft=o['soft'])
    if r.ok is not True:
        try:
            d['single'] = any('f32(' in TM.show(x) for x in (g if isinstance(g, tuple) else (g,)))
            if isinstance(g, tuple): d['goal'] = '%s  ==  %s' % (TM.show(g[0])[:1500], TM.show(g[1])[:1500])
            else: d['goal'] = TM.show(g)[:1500]
            d['path'] = [TM.show(c)[:300] for c in o['path']][:12]
        except Exception:
            pass
        d['model'] = r.model
    return d


def sym_task(a):
    ll, tu, names, budget, aspects, deadline = a
    out = []
    t0 = time.time()
    st0 = dict(PV.STATS)
    try:
        mod = ir.parse(ll)
    except Exception as e:
        return [dict(name=n, tu=tu['key'], error='parse: %r' % e, obls=[], completed=0, paths=0, mode='', used={}, time=0, loops=0, solver_s=0) for n in names]
    specs = tu['specs']()
    for n in names:
        if 'sc_' + n not in mod.funcs:
            out.append(dict(name=n, tu=tu['key'], error='scenario not compiled', obls=[], completed=0, paths=0, mode='', used={}, time=0, loops=0, solver_s=0))
            continue
        s0 = PV.STATS['solver_s']
        try:
            r = run.run_sym(mod, n, specs[n], budget, aspects, deadline)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt): raise
            r = dict(name=n, error='engine: %r' % e, obls=[], completed=0, paths=0, mode='', used={}, time=0, loops=0)
        r['obls'] = [plain(o) for o in r['obls']]
        r['tu'] = tu['key']
        r['solver_s'] = PV.STATS['solver_s'] - s0
        out.append(r)
    return out


def con_task(a):
    exe, tu, n, models, ncase, seed, tol = a
    specs = tu['specs']()
    sp = specs[n]
    TM.SYMM.clear()
    TM.SYMM.update(sp.symm())
    cases = []
    for m in models[:6]:
        try: cases.append(run.gen_case(sp, 1000 + len(cases), m))
        except Exception: pass
    for k in range(ncase): cases.append(run.gen_case(sp, seed + k))
    cases.sort(key=lambda c: sum(v for v in c.sizes.values() if v > 5))
    r = run.run_con(exe, n, sp, cases, tol=tol, budget=60 if ncase < 60 else 150)
    if r['ok'] is False:
        r['case'] = r['case'].js()
        r['tol'] = tol
        r['fails'] = [[str(x) if x is not None else None for x in f] for f in r['fails'][:8]]
    r['name'] = n
    r['tu'] = tu['key']
    return r


def comp_sym(a):
    tu, d = a
    out = os.path.join(d, tu['key'] + '.ll')
    t0 = time.time()
    rc, o, e = run.compile_sym(tu['src'], tu['defs'], out)
    return tu['key'], rc, e[:4000], out, time.time() - t0


def comp_con(a):
    tu, d = a
    out = os.path.join(d, tu['key'] + '.exe')
    rc, o, e = run.compile_con(tu['src'], tu['defs'], out)
    return tu['key'], rc, e, out


def demangle(names):
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    if p.returncode != 0:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')[:len(names)]


def strip_templates(s):
    out, d = [], 0
    for ch in s:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out.append(ch)
    s = ''.join(out)
    s = re.sub(r'\(.*', '', s)
    s = re.sub(r'^.* (?=ad::)', '', s)
    return s.strip()


def counts(o, aspects):
    return aspects is None or o['kind'] in aspects or o['kind'] in ('memory', 'assert') and 'memory' in aspects


def check(pid, tier, seed):
    t0 = time.time()
    P = props.PROPS[pid]
    aspects = P.get('aspects')
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try:
        return _check(pid, P, aspects, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(pid, P, aspects, tier, seed, work, t0):
    tus = {tu['key']: tu for tu in P['tus']()}
    quick = tier == 'quick'
    budget = 150 if quick else 400
    ncase_r = 80 if quick else 600
    deadline = time.time() + (480 if quick else 3000)
    res = []
    conneed = {}       # tu key -> {scenario: (models, reason)}
    comperr = {}
    ctx = mp.get_context('fork')
    with ctx.Pool(NPROC, maxtasksperchild=8) as pool:
        pend = []
        for key, rc, e, out, dt in pool.imap_unordered(comp_sym, [(tu, work) for tu in tus.values()]):
            tu = tus[key]
            names = tu['names']
            if rc != 0:
                comperr[key] = e
                conneed.setdefault(key, {}).update({n: ([], 'the scenario does not compile against the contract shim') for n in names})
                continue
            k = max(1, min(len(names), -(-len(names) // tu.get('chunk', 6))))
            for c in range(k):
                pend.append(pool.apply_async(sym_task, ((out, tu, names[c::k], budget, aspects, deadline),)))
        for p in pend: res += p.get()
        nbad = 0
        for r in res:
            bad = [o for o in r['obls'] if not o['soft'] and o['ok'] is not True and counts(o, aspects)]
            r['bad'] = bad
            once = bool(r['completed']) and r['mode'] not in ('', 'induction')
            if r['error'] or bad or not r['completed'] or once:
                models = [o['model'] for o in r['obls'] if not o['soft'] and o.get('model')] + (r.get('stepmodels') or [])
                conneed.setdefault(r['tu'], {})[r['name']] = (models, r['error'] or ('; '.join('%s [%s]' % (o['desc'], o['where'][:60]) for o in bad[:3]) or
                    ('proved for two evaluations, the step from one evaluation to the next is not: ' + r.get('step', '') if once else 'no path completes')))
        # a rounding to single precision shows up far below the usual tolerance of the replay
        single = {(r['tu'], r['name']) for r in res if any(o.get('single') for o in r['bad'])}
        need = {k: set(v) for k, v in conneed.items()}
        # proofs are over the reals: where an operation may be undefined (its value unused), the real code is replayed there
        soft_m = {}
        if aspects is None:
            for r in res:
                ms = [o['model'] for o in r['obls'] if o['soft'] and o['ok'] is not True]
                if ms and r['tu'] not in comperr:
                    soft_m[(r['tu'], r['name'])] = [m for m in ms if m][:6]
                    need.setdefault(r['tu'], set()).add(r['name'])
        if not quick:
            for key, tu in tus.items(): need.setdefault(key, set()).update(tu['names'])
        need = {k: v for k, v in need.items() if v}
        con = {}
        concomp = {}
        pend = []
        if need:
            for key, rc, e, out in pool.imap_unordered(comp_con, [(tus[k], work) for k in need]):
                concomp[key] = (rc, e)
                if rc != 0: continue
                for n in sorted(need[key]):
                    m = conneed.get(key, {}).get(n, ([], ''))[0] or soft_m.get((key, n), [])
                    pend.append(pool.apply_async(con_task, ((out, tus[key], n, m, ncase_r * (4 if ' two evaluations' in conneed.get(key, {}).get(n, ('', ''))[1] else 1) if n in conneed.get(key, {}) else 16 if quick else 60, seed * 1000 + 1,
                        2e-9 if (key, n) in single else 1e-6),)))
            for p in pend:
                r = p.get()
                con[(r['tu'], r['name'])] = r
    # ---- verdicts
    viol = []
    bounded = []
    symres = {(r['tu'], r['name']): r for r in res}
    for key, names in need.items():
        rc, e = concomp[key]
        if rc != 0:
            viol.append(dict(tu=key, scenario='*', reason='a documented use no longer compiles', output=e[:6000], case=None))
            continue
        for n in sorted(names):
            c = con.get((key, n))
            s = symres.get((key, n))
            reason = conneed.get(key, {}).get(n, ([], ''))[1]
            if c and c['ok'] is False:
                rel = [f for f in c['fails'] if aspects is None or f[0] in aspects or f[0] in ('memory', 'assert') and 'memory' in aspects]
                if rel:
                    viol.append(dict(tu=key, scenario=n, reason=reason or 'replay on the real code disagrees with the contract', case=c['case'], tol=c['tol'], fails=c['fails'], log=c.get('log', ''),
                                     obligations=(s or {}).get('bad', [])[:5]))
                    continue
            if n in conneed.get(key, {}):
                ref = [o for o in (s or {}).get('bad', []) if o['ok'] is False]
                if ref and (s or {}).get('error') is None:
                    viol.append(dict(tu=key, scenario=n, reason=reason, case=None, obligations=ref[:5], output='replayed on %d inputs without a failure' % (c or {}).get('ran', 0)))
                else:
                    bounded.append(dict(scenario=n, reason=reason, inputs=(c or {}).get('ran', 0), why=(c or {}).get('why')))
    # ---- report
    obls = [o for r in res for o in r['obls'] if not o['soft'] and counts(o, aspects)]
    soft = [o for r in res for o in r['obls'] if o['soft']]
    done = [o for o in obls if o['ok'] is True]
    back = {}
    for o in done: back[o['back']] = back.get(o['back'], 0) + 1
    used = {}
    for r in res:
        for f, k in r['used'].items(): used[f] = used.get(f, 0) + k
    raw = [f for f in used if f.startswith('_ZN') and not f.startswith('_ZNK5Eigen') and not f.startswith('_ZN5Eigen')]
    dm = demangle(raw) if raw else []
    fns = sorted({strip_templates(x) for x in dm if 'ad::' in x and 'vc::' not in strip_templates(x) and strip_templates(x).startswith('ad::')})
    insts = sum(1 for x in dm if strip_templates(x).startswith('ad::'))
    nsc = sum(len(tu['names']) for tu in tus.values())
    proved = [r for r in res if not r['error'] and not r['bad'] and r['completed'] and r['mode'] == 'induction']
    vac = not obls
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'),
              coverage=dict(
                  kind='contract-based deductive verification of the compiled IR of the real templates',
                  obligations=len(obls), discharged=len(done),
                  checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
                  trusted_base=props.TRUSTED + P.get('trusted', []),
                  discharged_by_backend=back, solver_seconds=round(sum(r.get('solver_s', 0) for r in res), 2),
                  scenarios_replayed_for_undefined_operations=len(soft_m),
                  definedness_side_conditions=dict(total=len(soft), discharged=sum(1 for o in soft if o['ok'] is True)),
                  scenarios=nsc, scenarios_proved=len(proved),
                  scenarios_two_evaluations_only=[r['name'] for r in res if not r['error'] and not r['bad'] and r['completed'] and r['mode'] != 'induction'],
                  scenarios_bounded_replay=bounded,
                  loops_with_inductive_invariant=sum(r.get('loops', 0) for r in res),
                  symbolic_paths=sum(r['paths'] for r in res),
                  functions_under_contract=fns, function_instantiations=insts,
                  bounded_parts=P.get('bounded', []),
                  replayed_inputs=sum(c.get('ran', 0) for c in con.values())),
              wall_s=round(wall, 2), assumptions=props.ASSUMPTIONS + P.get('assumptions', []), violations=[])
    code = 0
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    for v in viol:
        path = os.path.join(VERIF, 'replay', '%s-%s.json' % (pid, re.sub(r'\W', '_', v['tu'] + '-' + v['scenario'])))
        v['property'] = pid
        v['defs'] = tus[v['tu']]['defs']
        v['src'] = tus[v['tu']]['src']
        v['rerun'] = 'python3-vt /verif/check.py --replay ' + path
        with open(path, 'w') as f: json.dump(v, f, indent=1, default=str)
        v['path'] = path
    viol.sort(key=lambda v: v['case'] is None)
    for v in viol[:8]:
        line = 'VIOLATION property=%s replay=%s' % (pid, v['path'])
        if v['case'] is None: line += ' no-failing-input-found'
        what = v['fails'][0][:2] if v.get('fails') else [o['desc'] for o in v.get('obligations', [])[:1]]
        print('scenario %s: %s: %s' % (v['scenario'], v['reason'][:300], what))
        print(line)
        ev['violations'].append(dict(replay=v['path'], scenario=v['scenario'], what=str(what)[:300], failing_input=v['case'] is not None))
        code = 1
    if vac and not viol:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.join(VERIF, 'evidence', pid + '.json'))) if not bounded else None
        if not bounded: code = 1
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d scenarios, %d proved, %d bounded; %d/%d obligations discharged %s; %d replayed inputs; %.1fs' %
          (pid, tier, nsc, len(proved), len(bounded), len(done), len(obls), back, ev['coverage']['replayed_inputs'], wall))
    for b in bounded: print('  bounded:', b['scenario'], '-', str(b['reason'])[:220], '(%s inputs replayed)' % b['inputs'], b['why'] or '')
    for k, e in comperr.items(): print('  shim compile error', k, e[:1500])
    return code


def replay(path):
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix='vc_replay_')
    try:
        key, rc, e, exe = comp_con((dict(key='x', src=v['src'], defs=v['defs']), work))
        if rc:
            print(e[:4000])
            return 1
        if not v['case']:
            print(json.dumps(v, indent=1)[:4000])
            return 1
        tu = [t for t in props.PROPS[v['property']]['tus']() if t['key'] == v['tu']][0]
        sp = tu['specs']()[v['scenario']]
        TM.SYMM.clear()
        TM.SYMM.update(sp.symm())
        c = v['case']
        r = run.run_con(exe, v['scenario'], sp, [run.Case(c['seed'], c['sizes'], c['reals'], c['arrays'])], tol=v.get('tol', 1e-6))
        print(r.get('log', ''))
        print('fails:', r.get('fails'))
        return 0 if r['ok'] else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        sys.exit(check(sys.argv[1], tier, seed))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
