#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.

1. The functions the property depends on are extracted from /repo's source, the
   contracts are spliced in, and Verus has to discharge every obligation.
2. The same postconditions are evaluated on concrete executions of the real
   crates: that is how a failed obligation gets its failing input, and how the
   assumed contracts of dependencies are confronted with the real libraries.
"""
import json, os, re, subprocess, sys, time, glob, shutil, threading, concurrent.futures

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
BUILD = os.path.join(VERIF, '.build')
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
NCPU = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def sh(cmd, env=None, timeout=None, cwd=None):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=env or ENV, timeout=timeout, cwd=cwd)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return -999, '', 'timeout'


def build_vx():
    return sh(['cargo', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'vx')], cwd=os.path.join(VERIF, 'tools/vx'), timeout=600)


def build_harness(prop=''):
    """Returns (path or None, hooks on?, note)."""
    d = os.path.join(VERIF, 'harness')
    exe = lambda t: os.path.join(BUILD, t, 'release', 'vh')
    build = ['cargo', 'build', '--release', '--offline', '--bin', 'vh']
    if prop == 'C21':
        build += ['--bin', 'cli_under_test']
    if prop == 'C22':
        build += ['--features', 'web']
    env = dict(ENV, RUSTFLAGS='--cfg sia_verif --cap-lints allow')
    rc, _, err = sh(build + ['--target-dir', os.path.join(BUILD, 'harness')], env=env, cwd=d, timeout=700)
    if rc == 0:
        return exe('harness'), True, ''
    env = dict(ENV, RUSTFLAGS='--cap-lints allow')
    rc2, _, err2 = sh(build + ['--target-dir', os.path.join(BUILD, 'harness-nohooks')], env=env, cwd=d, timeout=700)
    if rc2 == 0:
        return exe('harness-nohooks'), False, 'the hooks do not compile on this tree: private functions are reached through the public ones only'
    return None, False, err[-1500:] + err2[-1500:]


def search(exe, prop, seed, seconds, threads, tag):
    out = os.path.join(BUILD, 'search', '%s-%s-%d' % (prop, tag, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rc, _, err = sh([exe, 'run', prop, str(seed), str(seconds), out, str(threads)], timeout=seconds + 420)
    res = {'families': {}, 'wall_s': 0}
    rj = os.path.join(out, 'result.json')
    if os.path.exists(rj):
        res = json.load(open(rj))
    elif rc not in (0, 1):
        # the process died: one of the current cases did it
        for c in sorted(glob.glob(os.path.join(out, 'cur.*'))):
            w = open(c).read().split()
            if len(w) == 2:
                k, _, e = sh([exe, 'case', prop, w[0], w[1]], timeout=200)
                if k != 0:
                    res['found'] = {'family': w[0], 'index': int(w[1]), 'what': e.strip()[-600:] if k == 1 else 'the process ended with status %d' % k}
                    break
        else:
            res['crashed'] = rc
    shutil.rmtree(out, ignore_errors=True)
    f = res.get('found')
    if f and 'no result within' not in f['what']:
        # a finding counts when the case reproduces it on its own
        k, _, e = sh([exe, 'case', prop, f['family'], str(f['index'])], timeout=300)
        if k == 0:
            res['unconfirmed'] = res.pop('found')
    return res


def run_units(prop, tier):
    """Verus on every mode of the property's unit."""
    from vx import assemble
    from vx.units import UNITS
    from vx.extract import Unsupported, AnchorLost
    spec = UNITS.get(prop)
    if spec is None:
        return None
    out = {'runs': [], 'status': 'proved', 'shapes_equal': True, 'notes': []}
    base = assemble.baseline()
    os.makedirs(os.path.join(BUILD, 'units'), exist_ok=True)
    jobs = []
    for name in [prop] + spec.get('parts', []):
        modes = UNITS[name].get('modes', ['accept'])
        jobs += [(name, m, False) for m in modes] + [(name, m, True) for m in modes[:1]]
    todo = []
    for name, mode, canary in jobs:
        run = {'mode': mode, 'canary': canary, 'unit': name}
        out['runs'].append(run)
        try:
            u = assemble.Unit(UNITS[name], mode, canary)
            text = u.build()
        except Exception as e:
            run['status'] = 'unsupported'
            run['note'] = '%s%s: %s' % ('' if isinstance(e, (Unsupported, AnchorLost)) else 'extraction: ', type(e).__name__, e)
            out['status'] = 'undecided'
            out['notes'].append(run['note'])
            continue
        path = os.path.join(BUILD, 'units', '%s_%s%s.rs' % (name, mode, '_c' if canary else ''))
        open(path, 'w').write(text)
        todo.append((mode, canary, run, u, path, UNITS[name]))
    def verus(j):
        go = lambda rl, extra=(): assemble.run_verus(j[4], timeout=j[5].get('timeout', 300), rlimit=rl, threads=max(2, NCPU // max(1, len(todo))), extra=extra)
        rl = j[5].get('rlimit') or 20
        r = go(rl)
        if j[1] or r['status'] not in ('failed', 'rlimit'):
            return r
        # a proof the solver did not find may still exist: an obligation counts as discharged when some run discharges it
        name = lambda f: (f['module'], f['function'])
        done = {name(f) for f in r['functions'] if f['success']}
        every = {name(f) for f in r['functions']}
        first = r
        for seed in (1, 2, 3, 4):
            q = go(2 * rl, ('--smt-option', 'smt.random_seed=%d' % seed, '--smt-option', 'sat.random_seed=%d' % seed))
            first['retries'] = seed
            if q['status'] == 'proved':
                q['retries'] = seed
                return q
            if q['status'] not in ('failed', 'rlimit') or {name(f) for f in q['functions']} != every:
                break
            done |= {name(f) for f in q['functions'] if f['success']}
            if done == every and every:
                q.update(status='proved', errors=[], retries=seed)
                for f in q['functions']:
                    f['success'] = True
                return q
            if q['status'] == 'failed' and first['status'] == 'rlimit':
                q['retries'] = seed
                first = q
        # only what no run discharged is reported
        open_ = {n.split('::')[-1] for m, n in every - done}
        left = [e for e in first['errors'] if e['kind'] == 'rlimit' or ':' in j[3].where(e['line']).replace('::', '') or j[3].where(e['line']).split('::')[-1] in open_]
        first['errors'] = left or first['errors']
        return first
    with concurrent.futures.ThreadPoolExecutor(max(1, len(todo))) as ex:
        results = list(ex.map(verus, todo))
    for (mode, canary, run, u, path, _), r in zip(todo, results):
        run.update(status=r['status'], retries=r.get('retries', 0), wall=r['wall'], cmd=r['cmd'], smt_ms=r.get('smt_ms', 0), path=path)
        run['functions'] = [f for f in r.get('functions', []) if not f['module'].startswith('vx_') or f['module'] == 'vx_theorems']
        run['prelude_functions'] = len(r.get('functions', [])) - len(run['functions'])
        run['contracted'] = sorted(u.contracted)
        run['uncontracted'] = sorted(u.uncontracted)
        run['rewrites'] = u.trace
        run['trusted'] = u.trusted
        for full, s in u.shapes.items():
            b = base.get(full)
            if b is None:
                out['new'] = True
            if b is None or b['shape'] != s or not set(u.ops[full]) <= set(b['ops']):
                out['shapes_equal'] = False
                run.setdefault('changed_shape', []).append(full)
        new = u.unknown_calls()
        if new:
            out['shapes_equal'] = False
            out['new'] = True
            run['calls_without_contract'] = ['%s: %s' % x for x in new]
        run['unbounded'] = u.unbounded
        if canary:
            # every assertion that must fail has to fail: a contradictory precondition would make it pass
            hit = set()
            for e in r['errors']:
                for l in e['lines'] + [e['line']]:
                    hit.update(u.canaries.get(l, []))
                if e['kind'] == 'rlimit':
                    # the solver gave up on that function, so it did not prove the canaries either
                    w = u.where(e['line'])
                    hit.update(x for v in u.canaries.values() for x in v if x.startswith(w + ' '))
            every = {x for v in u.canaries.values() for x in v}
            miss = sorted(every - hit)
            run['canaries'] = len(every)
            run['canaries_failed_as_required'] = len(hit)
            run['status'] = r['status'] if r['status'] not in ('failed', 'proved') else 'ok' if not miss else 'vacuous'
            if miss and r['status'] in ('failed', 'proved') and out['status'] == 'proved':
                out['status'] = 'undecided'
                out['notes'].append('unreachable under its precondition: %s' % ', '.join(miss[:5]))
            continue
        if r['status'] == 'proved':
            ok = {f['function'] for f in run['functions'] if f['success']}
            if not ok:
                out['status'] = 'undecided'
                out['notes'].append('no obligation was generated')
            continue
        run['errors'] = [{'where': u.where(e['line']), 'kind': e['kind'], 'msg': e['msg'], 'text': e['text'][:3000]} for e in r['errors']]
        if r['status'] == 'failed':
            out['status'] = 'failed'
            # a function is checked against the contracts of what it calls, so its failure counts when its own
            # structure is the one the contracts were written for
            out['counts'] = out.get('counts', False) or any(
                e['kind'] == 'verify' and e['where'] in u.shapes and e['where'] not in run.get('changed_shape', []) for e in run['errors'])
        else:
            if out['status'] == 'proved':
                out['status'] = 'undecided'
            out['notes'].append('%s: %s' % (r['status'], '; '.join(e['msg'] for e in r['errors'][:3])))
    if not out['shapes_equal'] and not out.get('new') and out.get('counts') and not any(r['status'] == 'unsupported' for r in out['runs']):
        out['shapes_equal'] = True
    return out


def known_findings(prop):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(line.rstrip('\n'))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    for d in (BUILD, REPLAYS, EVID):
        os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(REPLAYS, prop + '*')):
        os.remove(f)
    hb = {}
    th = threading.Thread(target=lambda: hb.update(r=build_harness(prop)))
    th.start()
    rc, _, err = build_vx()
    if rc != 0:
        log('the extractor does not build: ' + err[-800:])
        th.join()
        return 2
    v = run_units(prop, tier)
    th.join()
    exe, hooks, note = hb['r']
    if exe is None:
        log('the replay harness does not build on this tree:\n' + note)
    proved = v is not None and v['status'] == 'proved'
    budget = (12 if proved else 60) if tier == 'quick' else (240 if proved else 420)
    s = {'families': {}, 'wall_s': 0}
    if exe:
        s = search(exe, prop, seed, budget, NCPU, 'a')
    if exe is None and v is None:
        return 2
    found = s.get('found')
    violation = None
    if found:
        violation = os.path.join(REPLAYS, prop + '.json')
        rep = {'property': prop, 'family': found['family'], 'index': found['index'], 'what': found['what'],
               'run': 'python3 %s/replay.py %s' % (VERIF, violation), 'hooks': hooks}
        if v and v['status'] == 'failed':
            rep['failed_obligations'] = [e for r in v['runs'] for e in r.get('errors', [])]
        json.dump(rep, open(violation, 'w'), indent=1)
    elif v and v['status'] == 'failed' and v['shapes_equal']:
        violation = os.path.join(REPLAYS, prop + '.obligation.json')
        json.dump({'property': prop, 'failed_obligations': [e for r in v['runs'] for e in r.get('errors', [])],
                   'checker_cmd': [r.get('cmd') for r in v['runs']], 'searched': s.get('families')}, open(violation, 'w'), indent=1)
    known = known_findings(prop)
    evidence(prop, tier, seed, v, s, hooks, note, violation, time.time() - t0, budget)
    for k in known:
        log(k)
    if v:
        for r in v['runs']:
            log('verus %s%s: %s, %d obligations' % (r['mode'], ' canaries' if r['canary'] else '', r['status'], len(r.get('functions', []))))
        for n in v['notes']:
            log('note: ' + n)
    log('executions: %s' % json.dumps(s.get('families')))
    if violation:
        if found:
            log('failing input: ' + found['what'][:1500])
            log('VIOLATION property=%s replay=%s' % (prop, violation))
        else:
            for r in v['runs']:
                for e in r.get('errors', []):
                    log('failed obligation in %s: %s' % (e['where'], e['msg']))
            log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, violation))
        return 1
    if v and v['status'] == 'failed':
        for r in v['runs']:
            for e in r.get('errors', []):
                log('undischarged in %s: %s' % (e['where'], e['msg']))
        log('undecided by proof: the structure of the code differs from what the contracts are anchored to; bounded search found no violation')
    return 0


def evidence(prop, tier, seed, v, s, hooks, note, violation, wall, budget):
    fam = s.get('families', {})
    cov = {}
    assumptions = []
    if v:
        runs = [r for r in v['runs'] if not r['canary']]
        fs = [f for r in runs for f in r.get('functions', [])]
        cov['obligations'] = len(fs)
        cov['discharged'] = sum(1 for f in fs if f['success'])
        cov['obligation_unit'] = 'one Verus query bundle per function, loop, lemma or theorem of the extracted code and its lemmas, counted once per mode; prelude functions are not counted'
        cov['checker_cmd'] = ' && '.join(r.get('cmd', '') for r in runs)
        tb = sorted({t for r in runs for t in r.get('trusted', [])})
        cov['trusted_base'] = ['Verus 0.2026.09.13.671956e with Z3', 'the extractor vx and its rewrite rules (counted under rewrites)'] + tb
        cov['proof_status'] = v['status']
        cov['functions_under_contract'] = sorted({c for r in runs for c in r.get('contracted', [])})
        cov['functions_without_contract'] = sorted({c for r in runs for c in r.get('uncontracted', [])})
        cov['rewrites'] = {}
        for r in runs:
            for k, n in r.get('rewrites', {}).items():
                cov['rewrites'][k] = max(n, cov['rewrites'].get(k, 0))
        cov['solver_time_s'] = round(sum(r.get('smt_ms', 0) for r in runs) / 1000.0, 2)
        cov['modes'] = [{'unit': r['unit'], 'mode': r['mode'], 'status': r['status'], 'wall_s': round(r.get('wall', 0), 2), 'obligations': len(r.get('functions', []))} for r in runs]
        can = [r for r in v['runs'] if r['canary']]
        cov['vacuity_canaries'] = sum(r.get('canaries', 0) for r in can)
        cov['vacuity_canaries_failed_as_required'] = sum(r.get('canaries_failed_as_required', 0) for r in can)
        if v['notes']:
            cov['notes'] = v['notes']
        assumptions += tb
    cov['executions'] = sum(fam.values())
    cov['executions_per_family'] = fam
    cov['executions_role'] = 'bounded: postconditions evaluated on real executions (replay of findings, conformance of assumed contracts); never counted as proved'
    cov['hooks'] = hooks
    if note:
        cov['harness_note'] = note[:600]
    if 'unconfirmed' in s:
        cov['unconfirmed'] = s['unconfirmed']
    assumptions += ['the extraction drops println!, derives, doc comments and attributes; integer casts, std calls and loops are rewritten to contracted equivalents']
    open_ended = sorted({x for r in (v['runs'] if v else []) for x in r.get('unbounded', [])})
    if open_ended:
        assumptions.append('termination is not proved for: ' + ', '.join(open_ended))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if v and v['status'] == 'proved' else 'other', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    if not (v and v['status'] == 'proved'):
        cov['explanation'] = 'the proof was not completed on this tree (see proof_status and notes); what was covered is the bounded search counted under executions'
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
