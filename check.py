#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--unit NAME] [--setup] : decide one property by symbolic execution.

Units (harness entries) are declared in harness/*.cpp by lines
    //@unit PROPERTY ENTRY time=20/120 [prof=gdal,omp] [N=3/5 ...] [args=--real,...] | what is quantified, and the bounds
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib as sx

VERIF = sx.VERIF


def load_units():
    us = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.cpp'))):
        text = open(f).read()
        for m in re.finditer(r'^//@unit (\S+) (\S+)([^|\n]*)\|(.*)$', text, re.M):
            u = {'prop': m.group(1), 'entry': m.group(2), 'name': m.group(2), 'file': os.path.basename(f), 'prof': frozenset(), 'time': (20, 120), 'params': {}, 'args': [], 'bound': m.group(4).strip(), 'real': False}
            for w in m.group(3).split():
                k, v = w.split('=', 1)
                if k == 'time':
                    u['time'] = tuple(float(x) for x in v.split('/'))
                elif k == 'prof':
                    u['prof'] = frozenset(v.split(','))
                elif k == 'args':
                    u['args'] = v.split(',')
                elif k == 'name':
                    u['name'] = v
                elif k == 'weight':
                    u['weight'] = int(v)
                else:
                    a = [int(x) for x in v.split('/')]
                    u['params'][k] = (a[0], a[-1])
            body = text
            i = body.find(u['entry'] + '(')
            # reach labels the entry itself names (vacuity witnesses)
            eol = body.find('\n', i)
            if body[i:eol].rstrip().endswith('}'):   # the entry only calls a shared body: take the labels there
                part = body[i:eol]
                for fn in re.findall(r'[{;]\s*(\w+)\s*[<(]', part):
                    k = body.find('static void ' + fn + '(')
                    if k >= 0:
                        part += body[k:body.find('\n}', k)]
            else:
                part = body[i:body.find('\n}', i)]
            u['labels'] = sorted(set(re.findall(r'sx_reach\("([^"]+)"\)', part)))
            us.append(u)
    return us


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def matches(k, prop, u, e):
    if k.get('status', 'open') != 'open' or k['property'] != prop or k['unit'] != u['name'] or k['check'] != e['id']:
        return False
    if k.get('kind') and k['kind'] != e['kind']:
        return False
    return bool(re.search(k.get('where', ''), e.get('stack', '') + ' ' + e.get('msg', '')))


def group(errs):
    """Distinct violations: by kind, check and place; every one with its models."""
    g = {}
    for e in errs:
        key = (e['kind'], e['id'], e['stack'].split(' < ')[0] if e['kind'] not in ('check',) else '')
        g.setdefault(key, []).append(e)
    return g


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        sx.engine()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only, keep = None, False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--unit':
            only = a.pop(0)
        elif x == '-v':
            keep = True
    t0 = time.time()
    units = [u for u in load_units() if u['prop'] == prop and (only is None or u['name'] == only)]
    if not units:
        print('no units for ' + prop)
        return 2
    os.makedirs(sx.BUILD, exist_ok=True)
    pool = cf.ThreadPoolExecutor(sx.CORES)
    ctl = cf.ThreadPoolExecutor(64)
    feng = ctl.submit(sx.engine)
    profs = {u['prof'] for u in units}
    flib = {p: ctl.submit(sx.lib_bc, p, pool) for p in profs}
    ffile = {}
    for u in units:
        k = (u['file'], u['prof'])
        if k not in ffile:
            ffile[k] = ctl.submit(lambda u=u: sx.file_bc(u, flib[u['prof']].result()))
    outdir = tempfile.mkdtemp(prefix='sxout')
    nu = len(units)
    par = min(nu, 4)
    workers = max(2, (sx.CORES + par - 1) // par + 1) if nu > 1 else sx.CORES
    runpool = cf.ThreadPoolExecutor(par)

    def do_unit(u):
        try:
            bc = sx.unit_bc(u, ffile[(u['file'], u['prof'])].result())
            feng.result()
            return sx.run_engine(u, bc, tier, workers, outdir)
        except sx.BuildError as e:
            return {'build_error': str(e)}
    order = sorted(units, key=lambda u: -u['time'][0])
    futs = [(u, runpool.submit(do_unit, u)) for u in order]
    known = known_findings()
    findings, violations, notes, hit = [], [], [], []
    tot = {}
    allfuncs, samples, perunit = set(), [], []
    validated = mismatch = 0
    fatal = None
    natdone = 0
    for u, f in futs:
        r = f.result()
        if 'build_error' in r:
            fatal = r['build_error']
            print('BUILD-FAILED unit %s: %s' % (u['name'], fatal))
            continue
        for k, v in r['agg'].items():
            tot[k] = tot.get(k, 0) + v
        allfuncs |= r['funcs']
        params = sx.params_of(u, tier)
        missing = [l for l in u['labels'] + (['omp-region'] if 'omp' in u['prof'] else []) if not r['reach'].get(l)]
        inc = r['agg']['incomplete'] + r['agg']['unsupported']
        pu = {'unit': u['name'], 'bounds': u['bound'], 'params': params, 'paths': r['agg']['paths'], 'infeasible_paths': r['agg']['infeasible'], 'instructions': r['agg']['instrs'],
              'queries': r['agg']['queries'], 'sat': r['agg']['sat'], 'unsat': r['agg']['unsat'], 'unknown': r['agg']['unknown'],
              'assertions_evaluated': r['checks'], 'assertions_decided_by_solver': r['agg']['checks_solver'], 'assertions_decided_by_constant_folding': r['agg']['checks_concrete'],
              'solver_s': round(r['agg']['solver_s'], 2), 'wall_s': round(r['agg']['wall'], 1), 'complete_within_bounds': inc == 0, 'reached': r['reach']}
        if inc:
            pu['incomplete'] = {'paths_not_finished': inc, 'reasons': r['unsup']}
            notes.append('%s: %d paths not finished (%s)' % (u['name'], inc, '; '.join(k + v for k, v in list(r['unsup'].items())[:4])))
        if missing:
            pu['not_reached'] = missing
            notes.append('%s: never reached %s' % (u['name'], ','.join(missing)))
        # counterexamples
        unconf = []
        for key, es in sorted(group(r['errs']).items(), key=lambda kv: str(kv[0])):
            kf = [k for k in known if matches(k, prop, u, es[0])]
            rest = [e for e in es if not any(matches(k, prop, u, e) for k in known)]
            if kf and len(rest) < len(es):
                hit.append((kf[0], u, es[0]))
            ok = None
            for e in rest[:4]:
                try:
                    good, text = sx.confirm(u, params, e, pool)
                except sx.BuildError as ex:
                    good, text = False, 'native build failed: ' + str(ex)[-300:]
                if good:
                    ok = (e, text)
                    break
            if ok:
                violations.append((u, ok[0], ok[1], params))
            elif rest:
                e = rest[0]
                unconf.append({'kind': e['kind'], 'check': e['id'], 'message': e['msg'], 'stack': e['stack'], 'model': e['model'], 'native': text})
                notes.append('%s: counterexample for %s (%s: %s at %s) not reproduced natively (%s)' % (u['name'], e['id'], e['kind'], e['msg'], e['stack'][:160], text))
        if unconf:
            pu['unconfirmed_counterexamples'] = unconf[:5]
        # validate the encoding: replay sampled paths on the compiled code, compare what both observed
        sm = [s for s in r['samples'] if s.get('obs')]
        sm = sm[::max(1, len(sm) // 8)][:8]
        if sm and 'race' not in u['name']:
            try:
                b = sx.native_bin(u, None, pool)
                res, err = sx.native_run(b, u['entry'], [s['model'] for s in sm], params)
                for s, n in zip(sm, res):
                    if n['rc'] != 0:
                        mismatch += 1
                        notes.append('%s: sampled path ends natively with code %s %s %s' % (u['name'], n['rc'], n['failed'], n['note']))
                        pu.setdefault('validation_mismatch', []).append({'model': s['model'], 'native': n})
                        continue
                    want = [[x[0], norm(x[1])] for x in s['obs']]
                    got = [[x[0], norm(x[1])] for x in n['obs']]
                    if want == got:
                        validated += 1
                    else:
                        mismatch += 1
                        pu.setdefault('validation_mismatch', []).append({'model': s['model'], 'symbolic': want, 'native': got})
                        notes.append('%s: sampled path observed differently natively' % u['name'])
            except sx.BuildError as ex:
                notes.append('native build failed: ' + str(ex)[-300:])
        for s in r['samples'][:2]:
            samples.append({'unit': u['name'], 'input': s['model'], 'observed': s.get('obs', [])[:12]})
        perunit.append(pu)
        if keep:
            print(json.dumps({k: v for k, v in pu.items()}, indent=1)[:3500])
    shutil.rmtree(outdir, ignore_errors=True)
    for k, u, e in hit:
        line = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
        if line not in findings:
            findings.append(line)
            print(line)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, (u, e, text, params) in enumerate(violations):
        p = os.path.join(rdir, '%s-%s-%d.json' % (prop, u['name'], i))
        json.dump({'property': prop, 'unit': u['name'], 'harness': 'harness/' + u['file'], 'entry': u['entry'], 'params': params, 'kind': e['kind'], 'check': e['id'],
                   'message': e['msg'], 'stack': e['stack'], 'input': e['model'], 'native': text,
                   'replay': 'python3 replay.py ' + os.path.relpath(p, VERIF)}, open(p, 'w'), indent=1)
        print('%s %s: %s [%s] at %s; %s; input %s' % (u['name'], e['kind'], e['id'], e['msg'], e['stack'][:200], text, json.dumps(e['model'])[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for n in notes:
        print('NOTE ' + n)
    src = sorted(f for f in allfuncs if '/repo/' in f or f.startswith(('src/', 'apps/')) or re.match(r'(data_raster|utils_\w+|basic|db_mongoc|mask_rasterio)\.(cpp|h|hpp)\b', f.split('|')[0].split('/')[-1]))
    names = sorted({f.split('|')[0].split('/')[-1] + ' ' + f.split('|')[-1] for f in src})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': tot.get('paths', 0), 'transitions': tot.get('forks', 0), 'traces_validated_against_impl': validated, 'samples': samples[:10],
                       'what': 'states = feasible execution paths of the harness entries over the real code, each covering every input that follows it; transitions = branch decisions settled by the solver or by a model',
                       'functions_encoded': [n[:160] for n in names[:400]], 'functions_encoded_count': len(names),
                       'instructions_executed': tot.get('instrs', 0), 'queries': tot.get('queries', 0), 'sat': tot.get('sat', 0), 'unsat': tot.get('unsat', 0), 'unknown': tot.get('unknown', 0),
                       'assertions_decided_by_solver': tot.get('checks_solver', 0), 'assertions_decided_by_constant_folding': tot.get('checks_concrete', 0),
                       'solver_s': round(tot.get('solver_s', 0), 2), 'validation_mismatches': mismatch, 'units': perunit, 'known_findings_seen': findings, 'notes': notes,
                       'exhaustive': all(p['complete_within_bounds'] for p in perunit)},
          'assumptions': sx.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d units, %d paths, %d queries (%.1f s solver), %d native validations (%d mismatches), %d violations, %d known findings, %.1f s' % (
        prop, tier, len(perunit), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_s', 0), validated, mismatch, len(violations), len(findings), time.time() - t0))
    sys.stdout.flush()
    if violations:
        return 1
    if fatal:
        return 2
    return 0


def norm(x):
    return int(x, 16)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
