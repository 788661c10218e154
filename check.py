#!/usr/bin/env python3-vt
"""check.py --property ID [--tier quick|thorough] : decides one property of /repo's working tree."""
import argparse, json, os, sys, time, subprocess, tempfile, shutil, multiprocessing, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = ['clang++', '-std=c++11', '-O0', '-S', '-emit-llvm', '-g', '-fno-limit-debug-info', '-w', '-I' + REPO]


def build_unit(src, out):
    r = subprocess.run(CLANG + [os.path.join(HERE, 'units', src), '-o', out], capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def _worker(unit, text, names, q, res, budget, scale=1):
    from dv import registry
    from dv.ir import Module
    from dv.spec import Driver
    from dv.sym import STATS, SCALE
    SCALE[0] = scale
    try:
        m, W, _, _ = registry.load(unit)
        mod = Module(text)
        world = W(mod)
        d = Driver(mod, world, budget=budget)
        specs = {sp.entry: sp for sp in m.PUBLIC}
        while True:
            n = q.get()
            if n is None:
                break
            sp = specs[n]
            try:
                fn = d.function_of(sp)
                if fn is None and getattr(sp, 'heavy', False):
                    res.put(('skip', n))
                    continue
                d.budget = budget * getattr(sp, 'slow', 1)
                r = d.verify(fn, sp)
                out = dict(name=n, status=r.status, why=r.why, secs=r.secs, paths=r.paths, obs=[ob(o) for o in r.obs])
            except Exception as e:
                out = dict(name=n, status='undecided', why='verifier: %s: %s' % (type(e).__name__, traceback.format_exc()[-600:]), secs=0, paths=0, obs=[])
            res.put(('entry', out))
        internal = []
        for n, r in d.results.items():
            internal.append(dict(name=n, dem=mod.dem.get(n, n), short=r.name, status=r.status, why=r.why, secs=r.secs,
                                 obs=[ob(o) for o in r.obs]))
        inl = sorted(mod.dem.get(n, n) for n in d.X.inlined)
        used = sorted(mod.dem.get(n, n) for n in d.X.used_contracts)
        res.put(('done', dict(internal=internal, inlined=inl, used=used, loops=d.X.loopinfo, solver_s=STATS.solver_s, queries=STATS.queries)))
    except Exception:
        res.put(('done', dict(internal=[], inlined=[], used=[], loops=[], solver_s=0, queries=0, error=traceback.format_exc()[-1500:])))


def ob(o):
    d = dict(func=o.func, name=o.name, tag=o.tag, status=o.status, backend=o.backend, secs=round(o.secs or 0, 3), loc=o.loc)
    if o.status != 'proved':
        d['model'] = (o.model or '')[:3000]
        d['trace'] = o.trace
    return d


def starved(e):
    """not proved, and nothing but missing solver answers stands against it"""
    bad = [o for o in e['obs'] if o['status'] != 'proved']
    return e['status'] == 'failed' and len(bad) <= 3 and all(o['status'] == 'unknown' for o in bad)


def run_entries(unit, text, entries, procs, budget, total, out, skipped, scale=1):
    ctx = multiprocessing.get_context('fork')
    q, res = ctx.Queue(), ctx.Queue()
    procs = max(1, min(procs, len(entries)))
    for e in entries:
        q.put(e)
    for _ in range(procs):
        q.put(None)
    ps = [ctx.Process(target=_worker, args=(unit, text, entries, q, res, budget, scale)) for _ in range(procs)]
    for p in ps:
        p.start()
    done = 0
    t0 = time.time()
    import queue as Q
    while done < procs:
        try:
            k, v = res.get(timeout=5)
        except Q.Empty:
            if time.time() - t0 > total or not any(p.is_alive() for p in ps):
                break
            continue
        if k == 'skip':
            skipped.add(v)
        elif k == 'entry':
            out['entries'].append(v)
        else:
            done += 1
            seen = {i['name'] for i in out['internal']}
            out['internal'] += [i for i in v['internal'] if i['name'] not in seen]
            out['inlined'] |= set(v['inlined'])
            out['used'] |= set(v['used'])
            out['loops'] += v['loops']
            out['solver_s'] += v['solver_s']
            out['queries'] += v['queries']
            if v.get('error'):
                out['errors'].append(v['error'])
    for p in ps:
        if p.is_alive():
            p.kill()
        p.join()


def verify_unit(unit, tmp, procs, budget, total, filt=None):
    """all public entries of a unit; returns dict"""
    from dv import registry
    m, W, src, har = registry.load(unit)
    ll = os.path.join(tmp, unit + '.ll')
    ok, err = build_unit(src, ll)
    if not ok:
        return dict(unit=unit, compile_error=err[-2000:], entries=[], internal=[], inlined=[], used=[], loops=[], solver_s=0, queries=0)
    text = open(ll).read()
    entries = [sp.entry for sp in m.PUBLIC if filt is None or filt(sp.entry)]
    weight = getattr(m, 'WEIGHT', {})
    entries.sort(key=lambda e: -weight.get(e, 1))
    out = dict(unit=unit, entries=[], internal=[], inlined=set(), used=set(), loops=[], solver_s=0.0, queries=0, errors=[])
    skipped = set()
    t0 = time.time()
    run_entries(unit, text, entries, procs, budget, total, out, skipped)
    # a proof can also fail for lack of solver time: once more, fewer at a time and with longer limits
    again = [e['name'] for e in out['entries'] if starved(e)]
    left = total - (time.time() - t0)
    if again and len(again) <= 4 and left > 60:
        old = [e for e in out['entries'] if e['name'] in again]
        out['entries'] = [e for e in out['entries'] if e['name'] not in again]
        run_entries(unit, text, again, max(1, procs // 2), budget, min(left, 240), out, skipped, 3)
        for e in old:
            new = [x for x in out['entries'] if x['name'] == e['name']]
            if not new:
                out['entries'].append(e)
        out['retried'] = again
    got = {e['name'] for e in out['entries']}
    for e in entries:
        if e not in got and e not in skipped:
            out['entries'].append(dict(name=e, status='undecided', why='time limit of the check', secs=0, paths=0, obs=[]))
    out['inlined'], out['used'] = sorted(out['inlined']), sorted(out['used'])
    out['entries'].sort(key=lambda e: e['name'])
    out['internal'].sort(key=lambda e: e['dem'])
    return out


def run_harness(har, cats, budget, tmp, san=False):
    exe = os.path.join(tmp, 'h_' + os.path.basename(har).replace('.cpp', '') + ('_san' if san else ''))
    cmd = ['g++', '-w', '-std=c++14', '-O1', '-g', '-I' + REPO, os.path.join(HERE, 'harness', har), '-o', exe]
    if san:
        cmd[1:1] = ['-fsanitize=undefined', '-fno-sanitize-recover=undefined']
    if not os.path.exists(exe):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return 'error', 'harness does not compile:\n' + r.stderr[-1500:], cmd
    try:
        r = subprocess.run([exe, '--cats', ','.join(cats), '--budget', str(budget)], capture_output=True, text=True,
                           timeout=budget + 60)
    except subprocess.TimeoutExpired:
        return 'error', 'harness timed out', cmd
    if r.returncode == 1 and 'FAIL' in r.stdout:
        return 'fail', r.stdout, cmd
    if r.returncode == 0:
        return 'pass', r.stdout.strip().split('\n')[-1], cmd
    return 'error', 'harness ended with %d\n%s' % (r.returncode, r.stdout[-500:]), cmd


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from dv import registry
    t0 = time.time()
    pid = a.property
    thorough = a.tier == 'thorough'
    tmp = tempfile.mkdtemp(prefix='dv_%s_' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        code = decide(pid, thorough, tmp, t0, a.v, registry)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(pid, thorough, tmp, t0, verbose, registry):
    procs = min(8, os.cpu_count() or 4)
    parts = registry.PROPS[pid]
    viol, notes, bounded = [], [], []
    obl = disc = 0
    by = {}
    failed_obs, units_ev = [], []
    solver_s, queries = 0.0, 0
    funcs_contract, funcs_inlined = set(), set()
    need = {}
    for unit, tags, cats, filt in parts:
        r = verify_unit(unit, tmp, procs, 300 if thorough else 150, 1500 if thorough else 600, filt)
        solver_s += r['solver_s']
        queries += r['queries']
        if 'compile_error' in r:
            notes.append('unit %s does not compile: %s' % (unit, r['compile_error'][-400:]))
            need.setdefault(unit, (cats, [], ['unit does not compile']))
            continue
        for e in r['errors']:
            notes.append(e)
        ent = [e for e in r['entries'] if filt is None or filt(e['name'])]
        myfail, und = [], []
        anybad = False
        for e in ent:
            if e['status'] == 'undecided':
                anybad = True
                und.append('%s: %s' % (e['name'], e['why'][:700]))
            for o in e['obs']:
                if o['status'] != 'proved':
                    anybad = True
                if o['tag'] not in tags and o['tag'] != 'loop':
                    continue
                obl += 1
                if o['status'] == 'proved':
                    disc += 1
                    by[o['backend']] = by.get(o['backend'], 0) + 1
                elif e['status'] == 'failed':
                    myfail.append(dict(o, entry=e['name']))
        for i in r['internal']:
            if i['status'] == 'proved':
                funcs_contract.add(i['dem'])
                for o in i['obs']:
                    obl += 1
                    disc += 1
                    by[o['backend']] = by.get(o['backend'], 0) + 1
            else:
                notes.append('internal contract not established, callee inlined instead: %s (%s)' % (i['short'], i['why'][:200]))
        funcs_contract |= {e['name'] for e in ent if e['status'] == 'proved'}
        funcs_inlined |= set(r['inlined'])
        units_ev.append(dict(unit=unit, entries=[dict(name=e['name'], status=e['status'], obligations=len(e['obs']),
                                                      paths=e['paths'], secs=round(e['secs'], 2), why=e['why'][:300]) for e in ent],
                             loops=[list(x) for x in sorted({tuple(l) for l in r['loops']})][:60]))
        if anybad:
            need[unit] = (cats, myfail, und)
        failed_obs += myfail
    # concrete execution of the real code: replay of failed obligations, stand-in for undecided ones, cross-check otherwise
    for unit, tags, cats, filt in parts:
        _, myfail, und = need.get(unit, (cats, [], []))
        har = registry.load(unit)[3]
        for san in ((False, True) if thorough else (False,)):
            st, txt, cmd = run_harness(har, cats, (200 if thorough else 100) if unit in need else (150 if thorough else 40), tmp, san)
            if st == 'fail':
                break
        if st == 'fail':
            rp = replay(pid, unit, txt, myfail, und, cmd, cats)
            viol.append('VIOLATION property=%s replay=%s' % (pid, rp))
        elif myfail:
            rp = replay(pid, unit, None, myfail, und, cmd, cats)
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
            notes.append('harness: ' + txt)
        elif st == 'error':
            notes.append('harness: ' + txt)
            if unit in need:
                bounded.append('NO ANSWER for %s: %s' % (unit, '; '.join(und)[:500]))
        elif und:
            bounded.append('bounded stand-in for unit %s (%s), because: %s' % (unit, txt, '; '.join(und)[:1500]))
        else:
            notes.append('contract cross-check by concrete execution, unit %s: %s' % (unit, txt[:300]))
        for b in registry.BOUNDED.get((pid, unit), []):
            if st == 'pass':
                bounded.append('%s (%s)' % (b, txt[:200]))
        if viol:
            break
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level='proof' if not bounded else 'other',
              coverage=dict(obligations=obl, discharged=disc, checker_cmd='python3-vt check.py --property %s' % pid,
                            trusted_base=TRUSTED, discharged_by=by, solver_seconds=round(solver_s, 2), solver_queries=queries,
                            functions_under_contract=sorted(funcs_contract), functions_inlined=len(funcs_inlined),
                            units=units_ev, bounded=bounded, notes=notes),
              assumptions=assumptions(parts, registry), wall_s=round(time.time() - t0, 2),
              violations=[v for v in viol])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged (%s), solver %.1fs, wall %.1fs' % (pid, obl, disc, by, solver_s, time.time() - t0))
    for b in bounded:
        print('BOUNDED: ' + b)
    for n in notes:
        print('note: ' + n[:400])
    if verbose:
        for o in failed_obs[:20]:
            print('  failed:', {k: o[k] for k in ('entry', 'name', 'tag', 'status', 'loc')})
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if viol:
        for v in viol:
            print(v)
        return 1
    if any(b.startswith('NO ANSWER') for b in bounded):
        return 2
    return 0


TRUSTED = ['clang 18 front end (C++ -> LLVM IR at -O0)', 'the verification-condition generator in /verif/dv',
           'z3', 'cvc5', 'memory model: typed, distinct objects do not overlap; addresses are mathematical integers below 2^62']


def assumptions(parts, registry):
    out = []
    for unit, *_ in parts:
        m = registry.load(unit)[0]
        out += getattr(m, 'ASSUMPTIONS', [])
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


def known(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def replay(pid, unit, txt, fails, und, cmd, cats):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (pid, unit))
    with open(p, 'w') as f:
        f.write('property %s, unit %s\n\n' % (pid, unit))
        if txt:
            f.write('failing input on the real code:\n%s\n' % txt)
            sc = [l.split('scenario: ', 1)[1] for l in txt.split('\n') if 'scenario: ' in l]
            c2 = list(cmd)
            c2[-1] = '/tmp/replay_%s' % unit
            f.write('reproduce:\n  %s\n' % ' '.join(c2))
            for s in sc:
                f.write("  %s --cats %s --only '%s'\n" % (c2[-1], ','.join(cats), s))
            f.write('\n')
        f.write('obligations that the verifier does not discharge (%d):\n' % len(fails))
        for o in fails[:25]:
            f.write('\n- %s : %s [%s] at %s: %s by %s\n  path: %s\n' % (o['entry'], o['name'], o['tag'], o['loc'], o['status'], o['backend'], o.get('trace')))
            if o.get('model'):
                f.write('  solver model: %s\n' % o['model'][:1500].replace('\n', ' '))
        for u in und:
            f.write('\nundecided: %s\n' % u)
    return p


if __name__ == '__main__':
    main()
