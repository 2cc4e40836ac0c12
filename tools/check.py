#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property of the tree in /repo; see DESIGN.md"""
import os, sys, json, time, argparse, threading, traceback
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vsxlib as V
import registry as R

KNOWN = os.path.join(V.VERIF, 'known-findings.json')


def known_findings(pid):
    try:
        return [k for k in json.load(open(KNOWN))['findings'] if k['property'] == pid]
    except (OSError, ValueError, KeyError):
        return []


def matches(k, job, v):
    return k['harness'] == job.harness and k['entry'] == job.entry and k['message'] == v['msg'] and all(str(job.params.get(a)) == str(b) for a, b in k.get('params', {}).items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--no-validate', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid, tier = a.id, a.tier
    prop = R.PROPS[pid]
    thorough = tier == 'thorough'
    budget = (prop.get('thorough_s', 3600) if thorough else prop.get('quick_s', 560))
    jobs = [j for j in prop['jobs'] if (thorough or j.tier == 'quick') and (not a.only or a.only in j.name())]
    evdir = os.path.join(V.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    ev = os.path.join(evdir, pid + '.json')
    if os.path.exists(ev):
        os.unlink(ev)
    errors, results, violations, known_hit, unconfirmed = [], [], [], {}, []
    val = dict(validated=0, failed=[], skipped=0)
    linked = {}
    try:
        vsx = V.engine()
        wholes = {v: V.bitcode(v) for v in sorted({V.variant(j.harness) for j in jobs})}
        def lk(h):
            try:
                return h, V.harness_bc(h, wholes[V.variant(h)]), None
            except V.Infra as e:
                return h, None, str(e)
        with ThreadPoolExecutor(V.NPROC) as ex:
            for h, l, e in ex.map(lk, sorted({j.harness for j in jobs})):
                if e:
                    errors.append(e)
                linked[h] = l
    except V.Infra as e:
        print('ERROR: %s' % e)
        return 2
    tbuild = time.time() - t0
    deadline = t0 + budget
    todo = sorted([j for j in jobs if linked.get(j.harness)], key=lambda j: -j.weight)
    kf = known_findings(pid)
    stop = threading.Event()

    def run(j):
        left = deadline - time.time()
        if left < 5 or stop.is_set():
            return j, None
        tmo = min(left, (j.time * (6 if thorough else 1)))
        r = V.run_job(vsx, linked[j.harness], j.entry, j.params, tmo, mem=j.mem, explore=j.explore, preempt=(j.preempt_t if thorough and j.preempt_t is not None else j.preempt), qt=j.qt, extra=j.extra)
        return j, r

    natives = {}

    def native(h, san):
        if (h, san) not in natives:
            try:
                natives[(h, san)] = V.native_build(h, 'address,undefined' if san else None)
            except V.Infra as e:
                natives[(h, san)] = None
                errors.append(str(e))
        return natives[(h, san)]
    pending_viol = []
    with ThreadPoolExecutor(V.NPROC) as ex:
        futs = [ex.submit(run, j) for j in todo]
        for f in as_completed(futs):
            j, r = f.result()
            if r is None:
                errors.append('%s: no time left' % j.name())
                continue
            if r['res'] is None:
                errors.append('%s: executor failed (rc %s)\n%s' % (j.name(), r['rc'], r['out']))
                continue
            results.append((j, r))
            if a.v:
                print(j.name(), '%.1fs' % r['wall'], 'viol', len(r['res']['violations']), r['res']['incomplete'], flush=True)
            for v in r['res']['violations']:
                if v['kind'] == 'unsupported':
                    errors.append('%s: %s: %s' % (j.name(), v['msg'], v['trace'][:300]))
                    continue
                hit = [k for k in kf if matches(k, j, v)]
                if hit:
                    known_hit.setdefault(hit[0]['id'], (hit[0], 0))
                    continue
                pending_viol.append((j, v))
    # replay
    rdir = os.path.join(V.BUILD, 'replay', pid)
    seen = set()
    for j, v in pending_viol:
        key = (j.harness, j.entry, v['msg'])
        if key in seen:
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%d.json' % (j.entry, len(os.listdir(rdir))))
        exe = native(j.harness, True)
        st, txt = V.native_replay(exe, j.entry, v, j.params, explore=j.explore) if exe else ('none', 'no native build')
        if st != 'confirmed' and exe and v['kind'] == 'deadlock' and st == 'timeout':
            st = 'confirmed'
        json.dump(dict(property=pid, harness=j.harness, entry=j.entry, params=j.params, violation=v, replay=st, replay_output=txt), open(path, 'w'), indent=1)
        if st == 'confirmed':
            seen.add(key)
            violations.append((j, v, path))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s %s: %s' % (j.name(), v['kind'], v['msg']))
            print('  inputs: ' + '; '.join('%s=%s' % (i['name'], i['values'] if len(i['values']) > 1 else i['values'][0]) for i in v['inputs'] if len(i['values']) <= 16)[:700])
            print('  native: ' + txt.strip().replace('\n', '\n          ')[-700:], flush=True)
            if len(violations) >= 5:
                break
        else:
            unconfirmed.append('%s %s: %s (native replay: %s)' % (j.name(), v['kind'], v['msg'], txt.strip()[-200:]))
    # validation of the encoding: the witnesses of reached cover points, run natively
    if not violations and not a.no_validate:
        byh = {}
        for j, r in results:
            if j.validate:
                ww = r['res']['witness']
                for w in (ww if len(ww) <= 6 else ww[:2] + ww[-4:]):
                    byh.setdefault(j.harness, []).append((j, w))
        for h, ws in byh.items():
            if time.time() > deadline + (600 if thorough else 60):
                val['skipped'] += len(ws)
                continue
            exe = native(h, False)
            if not exe:
                val['skipped'] += len(ws)
                continue
            def one(x):
                j, w = x
                return j, w, V.native_replay(exe, j.entry, w, j.params, timeout=60, explore=j.explore)
            with ThreadPoolExecutor(V.NPROC) as ex:
                for j, w, (st, txt) in ex.map(one, ws[:120]):
                    if st == 'no' and ('COVER ' + w['cover']) in txt:
                        val['validated'] += 1
                    elif 'ASSERTION FAILED' in txt:
                        # the executor found the assertion to hold for these values, the native run does not: encoding disagrees
                        val['failed'].append('%s cover %s: native run disagrees: %s' % (j.name(), w['cover'], txt[-300:]))
                    else:
                        val['skipped'] += 1
                        if a.v:
                            print('witness not validated', j.name(), w['cover'], txt[-200:])
            val['skipped'] += max(0, len(ws) - 120)
    # evidence
    tot = {}
    for j, r in results:
        for k, x in r['res']['stats'].items():
            tot[k] = max(tot.get(k, 0), x) if k.startswith('max') else tot.get(k, 0) + x
    funcs, obl, undec, incompl, covers, missing, notes = set(), {}, {}, [], {}, [], {}
    for j, r in results:
        d = r['res']
        funcs |= set(d['functions'])
        for k, x in d['obligations'].items():
            obl[k] = obl.get(k, 0) + x
        for k, x in d['undecided'].items():
            undec[k] = undec.get(k, 0) + x
        for k, x in d['notes'].items():
            notes[k] = notes.get(k, 0) + x
        for k in d['incomplete']:
            if not (d['violations'] and k == 'stopped at first violation'):
                incompl.append('%s: %s' % (j.name(), k))
        for k, x in d['covers'].items():
            covers[k] = covers.get(k, 0) + x
        for c in j.covers:
            if not d['covers'].get(c):
                missing.append('%s: %s' % (j.name(), c))
    own = sorted(f for f in funcs if not f.startswith(('std::', '__', 'void std::', 'bool std::', 'h_', 'vsx_')) and 'std::__' not in f[:30])
    samples = []
    for j, r in results[:12]:
        samples.append(dict(harness=j.name(), bounds=j.bounds, paths=r['res']['stats']['paths'], assertions=r['res']['stats']['assertions'], witness=(r['res']['witness'][-1:] and {'cover': r['res']['witness'][-1]['cover'], 'inputs': [dict(name=i['name'], values=i['values'][:8]) for i in r['res']['witness'][-1]['inputs'][:12]]})))
    cov = dict(
        states=int(tot.get('paths', 0) + tot.get('killed', 0) + tot.get('merges', 0)), transitions=int(tot.get('instructions', 0)), traces_validated_against_impl=val['validated'], samples=samples,
        state_rule='states: symbolic paths explored plus states merged; transitions: symbolically executed instructions; traces: solver-generated inputs of explored paths re-run on the native build with the same verdict',
        exhaustive=not incompl and not errors and not undec,
        jobs=len(results), jobs_planned=len(jobs), bounds=sorted({j.bounds for j in jobs}), bounds_outside=prop.get('outside', ''),
        obligations=int(tot.get('assertions', 0)), obligations_discharged=int(tot.get('assertions', 0) - tot.get('undecided', 0)), discharged_by_simplification=int(tot.get('assertionsTrivial', 0)),
        solver=dict(queries=tot.get('queries', 0), solver_calls=tot.get('solverCalls', 0), sat=tot.get('sat', 0), unsat=tot.get('unsat', 0), unknown=tot.get('unknown', 0), cache_hits=tot.get('cacheHits', 0), seconds=round(tot.get('solverSeconds', 0), 2), max_query_seconds=tot.get('maxQuerySeconds', 0)),
        schedules=dict(switch_points_branched=tot.get('transitions', 0)), forks=tot.get('forks', 0), symbols=tot.get('symbols', 0),
        assertions={k: obl[k] for k in sorted(obl)}, undecided=undec, incomplete=incompl[:40], covers=covers, covers_missing=missing, notes=notes,
        functions_encoded=len(own), functions=own[:400], unconfirmed_counterexamples=unconfirmed, encoding_disagreements=val['failed'], witnesses_not_validated=val['skipped'], errors=[e[:800] for e in errors], known_findings=sorted(known_hit), build_seconds=round(tbuild, 1),
        job_list=[dict(job=j.name(), bounds=j.bounds, wall=round(r['wall'], 1), paths=r['res']['stats']['paths'], assertions=r['res']['stats']['assertions'], solver_s=r['res']['stats']['solverSeconds'], complete=not r['res']['incomplete']) for j, r in results])
    json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=R.ASSUMPTIONS + prop.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations)), open(ev, 'w'), indent=1)
    for kid, (k, _) in sorted(known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for e in errors:
        print('NOTE: ' + e[:1500])
    for u in unconfirmed + val['failed']:
        print('NOTE: not reported: ' + u)
    print('%s %s: %d jobs, %d paths, %d obligations (%d undecided), %d solver calls, %.1f s solver time, %d witnesses validated natively, %d incomplete, %.1f s' % (
        pid, tier, len(results), tot.get('paths', 0), tot.get('assertions', 0), tot.get('undecided', 0), tot.get('solverCalls', 0), tot.get('solverSeconds', 0), val['validated'], len(incompl), time.time() - t0))
    if missing:
        print('NOTE: cover points not reached: ' + '; '.join(missing[:10]))
    if violations:
        return 1
    if not results:
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
