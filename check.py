#!/usr/bin/env python3-vt
"""Decide one property: extract the functions from /repo's working tree (LLVM IR of the sources as
compiled), generate and discharge the proof obligations of its harness contracts, replay
counterexamples natively, write evidence.   usage: check.py PROPERTY [quick|thorough]"""
import sys, os, re, json, time, subprocess, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'engine'))
sys.path.insert(0, os.path.join(V, 'harness'))
sys.setrecursionlimit(40000)
B = os.path.join(V, '.build')
NPROC = 8

def sh(cmd, timeout=600, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, errors='replace', **k)

def build_irdump():
    src = os.path.join(V, 'engine/irdump.cpp'); out = os.path.join(B, 'irdump')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src): return out
    os.makedirs(B, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    r = sh('clang++ -O1 $(llvm-config-18 --cxxflags 2>/dev/null || llvm-config --cxxflags) -fexceptions -o %s %s -lLLVM-18 -L$(llvm-config-18 --libdir 2>/dev/null || llvm-config --libdir)' % (tmp, src))
    if r.returncode: raise SystemExit('cannot build irdump: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out

CFG = {'17': ['-std=c++17'], '20': ['-std=c++20'], '17d': ['-std=c++17', '-DDEBUG']}
def sources():
    d = REPO + '/src/utki'
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.cpp'))
INC = ['-I' + os.path.join(V, 'harness'), '-I' + REPO + '/src', '-I' + REPO + '/src_deps']

IRF = ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-w', '-emit-llvm', '-c']
NATF = ['-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-pthread', '-c']
SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'], 'tsan': ['-fsanitize=thread']}
def compile_(a):
    """(key, source, output, flags) -> (key, output, error)"""
    key, src, out, flags = a
    r = sh(['clang++'] + flags + INC + [src, '-o', out])
    return (key, out, r.stderr[-3000:] if r.returncode else None)
def link_ir(a):
    h, cfg, wd, bcs = a
    l = os.path.join(wd, '%s.%s.bc' % (h, cfg)); j = os.path.join(wd, '%s.%s.json' % (h, cfg))
    r = sh(['llvm-link'] + bcs + ['-o', l])
    if r.returncode: return (h, cfg, None, 'llvm-link: ' + r.stderr[-2000:])
    r = sh(['opt', "-passes=function(sroa,simplifycfg,loop-simplify)", l, '-o', l + '.o'])
    if r.returncode: return (h, cfg, None, 'opt: ' + r.stderr[-2000:])
    r = sh('%s %s > %s' % (os.path.join(B, 'irdump'), l + '.o', j))
    if r.returncode: return (h, cfg, None, 'irdump: ' + r.stderr[-2000:])
    return (h, cfg, j, None)
def link_native(a):
    h, cfg, wd, objs, san = a
    out = os.path.join(wd, 'native.%s.%s' % (h, cfg))
    r = sh(['clang++', '-pthread'] + SAN[san] + objs + ['-o', out])
    if r.returncode: return (h, cfg, None, r.stderr[-3000:])
    return (h, cfg, out, None)

def load_opts(h):
    import importlib.util
    f = os.path.join(V, 'harness', h + '_opts.py')
    if not os.path.exists(f): return None
    sp = importlib.util.spec_from_file_location(h + '_opts', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m
def prove_job(a):
    import resource
    old = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, old[1]))
    try: return prove_(a)
    finally: resource.setrlimit(resource.RLIMIT_AS, old)
def prove_(a):
    import vcg, models, stdmodels
    h, cfg, j, entry, limit, end = a
    t0 = time.time(); limit = max(5, min(limit, end - t0))
    r = dict(h=h, cfg=cfg, entry=entry, err=None, fails=[], obl=0, ok=0)
    e = None
    try:
        mod = json.load(open(j))
        om = load_opts(h)
        opts = om.opts(entry, cfg) if om else {}
        e = vcg.Engine(mod, models.lookup(opts.get('models', ())), opts)
        e.deadline = t0 + limit
        e.verify(entry)
    except vcg.Budget as x: r['err'] = 'budget: %s' % x
    except vcg.Unsupported as x: r['err'] = 'unsupported: %s' % x
    except MemoryError: r['err'] = 'memory'
    except RecursionError: r['err'] = 'recursion'
    except Exception as x:
        import traceback
        r['err'] = 'engine: %s' % traceback.format_exc()[-1500:]
    if e is not None:
        r['obl'] = sum(v[0] for v in e.obl.values()); r['ok'] = sum(v[1] for v in e.obl.values())
        r['named'] = {}
        for (kind, label, fn, loc), v in e.obl.items():
            k = '%s: %s' % (kind, label); o = r['named'].setdefault(k, [0, 0]); o[0] += v[0]; o[1] += v[1]
        r['fails'] = [dict(kind=f.kind, label=f.label, fn=f.fn, loc=f.loc, status=f.status, model=f.model, trace=f.trace) for f in e.fails]
        r['reach'] = e.reach; r['models'] = sorted(e.used_models)
        r['fns'] = sorted(vcg.short(e.fns[n].dem) for n in e.executed if n in e.fns and 'utki::' in e.fns[n].dem)
        r['loops'] = [dict(function=v['function'], loc=v['loc'], kept=v['kept'], measure=v['measure'], invariants=v['invariants'][:12]) for v in e.loopinfo.values()]
        r['solver'] = dict(queries=e.solver.queries, time=round(e.solver.time, 2), by=e.solver.by, unknown=e.solver.unknown)
        r['stats'] = e.stats
    r['t'] = time.time() - t0
    return r

def write_replay(path, entry, model):
    with open(path, 'w') as f:
        f.write('# harness %s\n' % entry)
        for kind, name, v in model or []:
            if v is None: continue
            f.write('%s %s %s\n' % ({'any': 'a', 'len': 'l', 'ghost': 'g', 'bytes': 'b'}[kind], name.split('!')[0], v))

def native_search(a):
    nat, h, cfg, entry, secs, seed, out = a
    try: r = sh([nat, 'search', entry, str(secs), str(seed), out], timeout=secs + 60)
    except subprocess.TimeoutExpired: return dict(h=h, cfg=cfg, entry=entry, rc=5, out='timeout', err='')
    return dict(h=h, cfg=cfg, entry=entry, rc=r.returncode, out=r.stdout, err=r.stderr[-3000:], file=out)

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from props import PROPS
    P = PROPS[prop]
    t0 = time.time()
    wd = os.path.join(B, '%s.%d' % (prop, os.getpid())); os.makedirs(wd, exist_ok=True)
    rd = os.path.join(V, 'replay'); os.makedirs(rd, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    try: rc = run(prop, tier, seed, P, wd, rd, t0)
    finally: shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, seed, P, wd, rd, t0):
    cfgs = P.get('configs', ['17', '20', '17d'])
    ncfgs = P.get('native_configs', ['17d', '20'])
    build_irdump()
    hs = P['harness']   # list of (file, regex)
    limit = P.get('limit', 420) if tier == 'quick' else 3000
    end = t0 + (700 if tier == 'quick' else 30000)   # no proof job goes on after this
    nsecs = P.get('native_secs', 4) if tier == 'quick' else 60
    proof = P.get('proof', True)
    san = P.get('san', 'asan')   # tsan: a data race of the native run, it only replays a failed obligation
    undecided = []; results = []; natives = {}; nres = []
    files = sorted({h for h, _ in hs})
    with cf.ProcessPoolExecutor(NPROC) as ex:
        comp = []
        hd = os.path.join(V, 'harness')
        for kind, cl, fl in (('ir', cfgs if proof else [], IRF), ('nat', ncfgs, NATF + SAN[san])):
            for c in cl:
                for h in files:
                    comp.append(((kind, c, 'h', h), os.path.join(hd, h + '.cpp'), os.path.join(wd, '%s.%s.h.%s.o' % (kind, c, h)), CFG[c] + fl + (['-DVP_PROOF'] if kind == 'ir' else [])))
                if kind == 'nat': comp.append(((kind, c, 'n', ''), os.path.join(hd, 'native.cpp'), os.path.join(wd, '%s.%s.n.o' % (kind, c)), CFG[c] + fl))
                for k, src in enumerate(sources()):
                    comp.append(((kind, c, 's', src), src, os.path.join(wd, '%s.%s.s.%d.o' % (kind, c, k)), CFG[c] + fl))
        done = {}
        for key, out, err in ex.map(compile_, comp): done[key] = (out, err)
        def parts(kind, c, h):
            ks = [k for k in done if k[0] == kind and k[1] == c and (k[2] != 'h' or k[3] == h)]
            ks.sort(key=lambda k: (k[2] != 'h', k))
            errs = [done[k][1] for k in ks if done[k][1]]
            return [done[k][0] for k in ks], errs
        irf = []; ntf = []
        for h in files:
            for c in cfgs if proof else []:
                o, errs = parts('ir', c, h)
                if errs: undecided.append(('%s/%s' % (h, c), 'extraction: ' + errs[0])); continue
                irf.append(ex.submit(link_ir, (h, c, wd, o)))
            for c in ncfgs:
                o, errs = parts('nat', c, h)
                if errs: undecided.append(('native %s/%s' % (h, c), errs[0])); continue
                ntf.append(ex.submit(link_native, (h, c, wd, o, san)))
        irs = {}; jobs = []; pjobs = []
        for f in irf:
            h, c, j, err = f.result()
            if err: undecided.append(('%s/%s' % (h, c), 'extraction: ' + err)); continue
            irs[(h, c)] = j
        entries = {}
        for (h, c), j in irs.items():
            names = re.findall(r'"(vph_\w+)":', open(j).read())
            names = sorted({n for n in names})
            entries[(h, c)] = names
            for hh, rx in hs:
                if hh != h: continue
                for n in names:
                    if re.fullmatch(rx, n[4:]): pjobs.append((h, c, j, n, limit, end))
        for f in ntf:
            h, c, o, err = f.result()
            if err: undecided.append(('native %s/%s' % (h, c), err)); continue
            natives[(h, c)] = o
        njobs = []
        for (h, c), o in natives.items():
            names = sh([o, 'list']).stdout.split()
            for hh, rx in hs:
                if hh != h: continue
                for n in names:
                    if re.fullmatch(rx, n): njobs.append((o, h, c, n, nsecs, seed, os.path.join(wd, 'found.%s.%s.%s' % (h, c, n))))
        budget = P.get('native_total', 160) if tier == 'quick' else 1600
        if njobs:
            ns = max(1, min(nsecs, budget / max(1, (len(njobs) + NPROC - 1) // NPROC)))
            njobs = [a[:4] + (ns,) + a[5:] for a in njobs]
        for f in [ex.submit(native_search, a) for a in njobs]:
            try: nres.append(f.result())
            except Exception as x: undecided.append(('native worker', repr(x)))
        # a failing input of the real code settles the verdict: then only the entries it fails are verified (to name the
        # failed obligations), otherwise all of them
        failing = {(r['h'], r['entry']) for r in nres if r['rc'] == 1}
        if san == 'asan' and failing:
            undecided.append(('proof', 'only of the entries with a failing input'))
            pjobs = [(h, c, j, n, min(l, 200), end) for h, c, j, n, l, end in pjobs if (h, n[4:]) in failing]
        for f in [ex.submit(prove_job, a) for a in pjobs]:
            try: results.append(f.result())
            except Exception as x: undecided.append(('worker', repr(x)))
    if not results and not nres:
        # nothing could be built: no answer about the property
        print('cannot build the harness of %s against /repo:' % prop)
        for u in undecided: print(u[0], u[1][-1500:])
        return 2
    # ---------------------------------------------------------------- verdict
    concrete = []; proof_fails = []
    for r in nres:
        if r['rc'] == 1 and san == 'tsan' and 'data race' in r['err'] and results and all(x['ok'] == x['obl'] and not x['err'] for x in results):
            undecided.append(('native %s/%s' % (r['entry'], r['cfg']), 'data race reported, but every obligation about memory order is discharged')); continue
        if r['rc'] == 1:
            dst = os.path.join(rd, '%s-%s-%s.txt' % (prop, r['cfg'], r['entry']))
            m = re.search(r'^FAIL (.*)$', r['out'], re.M)
            with open(dst, 'w') as f:
                f.write(open(r['file']).read()); f.write('# config %s, contract executed natively (address+undefined sanitizers)\n# %s\n' % (r['cfg'], m.group(1) if m else ''))
                f.write(''.join('# ' + l + '\n' for l in r['err'].split('\n')[-40:]))
                f.write('# replay: %s/replay.sh %s %s %s %s\n' % (V, r['h'], r['cfg'], r['entry'], dst))
            concrete.append((dst, '%s/%s: %s' % (r['entry'], r['cfg'], m.group(1) if m else 'fails')))
        elif r['rc'] != 0: undecided.append(('native %s/%s' % (r['entry'], r['cfg']), 'rc %s %s' % (r['rc'], r['out'][-300:])))
    for r in results:
        if r['err'] and not (r['err'] == 'budget: many failures' and r['fails']): undecided.append(('%s/%s' % (r['entry'], r['cfg']), r['err']))
        for k, f in enumerate(r['fails']):
            if f['status'] != 'failed':
                undecided.append(('%s/%s' % (r['entry'], r['cfg']), 'solver gave no answer: %s: %s' % (f['kind'], f['label']))); continue
            dst = os.path.join(rd, '%s-%s-%s-%d.txt' % (prop, r['cfg'], r['entry'][4:], k))
            write_replay(dst, r['entry'][4:], f['model'])
            with open(dst, 'a') as o:
                o.write('# failed obligation: %s: %s\n# in %s at %s (config %s)\n# path: %s\n' % (f['kind'], f['label'], f['fn'], f['loc'], r['cfg'], f['trace']))
                o.write('# verifier: %s\n' % json.dumps({k2: v for k2, v in f.items() if k2 != 'model'}))
            ok = False
            if f['model']:
                for c in [r['cfg']] + ncfgs:
                    nat = natives.get((r['h'], c))
                    if nat:
                        try: rr = sh([nat, 'replay', r['entry'][4:], dst], timeout=60)
                        except subprocess.TimeoutExpired: continue
                        if rr.returncode == 1:
                            with open(dst, 'a') as o:
                                o.write('# replayed on the real code (config %s): %s\n' % (c, rr.stdout.split('\n')[0]))
                                o.write(''.join('# ' + l + '\n' for l in rr.stderr.split('\n')[:30]))
                                o.write('# replay: %s/replay.sh %s %s %s %s\n' % (V, r['h'], c, r['entry'][4:], dst))
                            ok = True; break
            item = (dst, '%s/%s: %s: %s in %s at %s' % (r['entry'][4:], r['cfg'], f['kind'], f['label'], f['fn'], f['loc']))
            (concrete if ok else proof_fails).append(item)
    named = {}
    for r in results:
        for k, v in (r.get('named') or {}).items():
            o = named.setdefault(k, [0, 0]); o[0] += v[0]; o[1] += v[1]
    # entries with a bound on the size of their input are labelled bounded and not counted as proved
    bounded = P.get('bounded', {})
    isb = lambda r: any(re.fullmatch(rx, r['entry'][4:]) for rx in bounded)
    bobl = sum(r['obl'] for r in results if isb(r)); bok = sum(r['ok'] for r in results if isb(r))
    obl = sum(r['obl'] for r in results if not isb(r)); ok = sum(r['ok'] for r in results if not isb(r))
    fns = sorted({f for r in results for f in r.get('fns', [])})
    mods = sorted({m for r in results for m in r.get('models', [])})
    by = {}
    for r in results:
        for k, v in r.get('solver', {}).get('by', {}).items(): by[k] = by.get(k, 0) + v
    unreached = sorted({'%s/%s: %s' % (r['entry'], r['cfg'], l) for r in results for l, v in (r.get('reach') or {}).items() if not v})
    loops = {}
    for r in results:
        for l in r.get('loops', []): loops['%s @ %s' % (l['function'], l['loc'])] = l
    runs = sum(int(m.group(1)) for r in nres for m in [re.search(r'runs (\d+)', r['out'])] if m)
    nontr = sum(int(m.group(1)) for r in nres for m in [re.search(r'nontrivial (\d+)', r['out'])] if m)
    samples = [r['entry'] + ': ' + r['out'].split('SAMPLES\n', 1)[1].split('\n\n')[0][:300] for r in nres if 'SAMPLES\n' in r['out']][:6]
    full = proof and bool(results) and not undecided and obl == ok and bok == bobl
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if full and obl else ('exploration' if not proof else 'other'),
              coverage=dict(obligations=obl, discharged=ok, checker_cmd='engine/vcg.py (VC generator over LLVM IR) -> z3 4.x API, cvc5 fallback; %s' % ' '.join(sys.argv),
                            trusted_base=['clang 18 -O0 front end and LLVM sroa/simplifycfg/loop-simplify', 'engine/irdump.cpp, engine/*.py (VC generator)', 'z3', 'cvc5 (fallback)', 'harness specification functions'],
                            functions_under_contract=fns, obligations_by_name={k: v for k, v in sorted(named.items())}, configs=cfgs, entries=sorted({r['entry'] for r in results}),
                            backends=by, solver_time_s=round(sum(r.get('solver', {}).get('time', 0) for r in results), 2),
                            loops_cut={k: dict(invariants_kept=v['kept'], measure=v['measure'], sample=v['invariants']) for k, v in sorted(loops.items())[:12]},
                            vacuity_unreached=unreached, undecided=[list(map(str, u))[:2] for u in undecided][:20], bounded_parts=[dict(entries=rx, bound=d) for rx, d in bounded.items()], bounded_obligations=bobl, bounded_discharged=bok,
                            evaluations=runs, distinct_nontrivial=nontr, rule='native cross-execution of the same contracts: exhaustive small inputs, then boundary-biased random; non-trivial = at least one contract clause evaluated; distinct inputs by hash, counting stops at 2000000 per entry',
                            samples=samples,
                            explanation='proof obligations as listed; %s' % (('all discharged' if obl else 'none: every entry is bounded (bounded_parts), all bounded obligations discharged') if full else 'undecided parts are covered only by the native bounded stand-in')),
              assumptions=['contract assumed: ' + m for m in mods if not m.startswith('vp_') and not m.startswith('llvm')] + P.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=1 if (concrete or proof_fails) else 0)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: obligations %d/%d' % (prop, ok, obl) + (', bounded %d/%d' % (bok, bobl) if bounded else '') + ', %d entries x configs, native runs %d, %.1fs' % (len(results), runs, time.time() - t0))
    for u in unreached: print('note: not reachable: ' + u)
    for u in undecided: print('undecided (bounded stand-in): %s: %s' % (u[0], str(u[1])[-400:]))
    for d, w in proof_fails[:6]: print('  failed obligation: %s -> %s' % (w, d))
    if concrete:
        for d, w in concrete[:6]: print('  failing input: %s -> %s' % (w, d))
        print('VIOLATION property=%s replay=%s' % (prop, concrete[0][0])); return 1
    if proof_fails:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, proof_fails[0][0])); return 1
    return 0
if __name__ == '__main__': main()
