#!/usr/bin/env python3
"""check.py <property id> [--replay <file>]: decides one property against /repo's working tree."""
import sys, os, json, time, subprocess, tempfile, shutil, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'mc'))
import build as B
from registry import CHECKS

def known():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    evdir = os.path.join(V, 'evidence'); rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay = json.load(open(sys.argv[3]))
    budget = 5400 if tier == 'thorough' else 560
    results, viol, knownhit, errors, infra = [], [], [], [], []
    for hs in spec['harnesses']:
        name = hs['name']
        if replay and replay['harness'] != name: continue
        try:
            exe = B.build(pid + '_' + name, os.path.join(V, 'h', hs['src']), hs.get('mode', 'asan'),
                          [os.path.join(V, 'mc', x) for x in hs.get('extra', ['mc.c'])], hs.get('wraps', ()),
                          hs.get('hflags', ()), hs.get('libs'), hs.get('libflags', ()), hs.get('morewraps', ()))
        except RuntimeError as e:
            print(str(e)); print('check.py: build failed'); sys.exit(2)
        d = tempfile.mkdtemp(prefix='mc_%s_' % pid)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=4194304:malloc_fill_byte=255:allocator_may_return_null=1:abort_on_error=1:detect_stack_use_after_return=1:handle_abort=1', TMPDIR=d)
        for k in list(env):
            if k.startswith('ARMAS_'): del env[k]
        env.update(hs.get('env', {}))
        out = os.path.join(d, 'out.json')
        try:
            if replay:
                r = subprocess.run([exe, '--replay', replay['choices'], '--dir', d] + ['--thorough'] * (spec.get('lift', 0) + (replay.get('tier') == 'thorough')), env=env)
                sys.exit(r.returncode)
            cmd = [exe, '--dir', d, '--out', out, '--shards', str(hs.get('shards', 8)), '--budget', str(budget)]
            cmd += ['--thorough'] * (spec.get('lift', 0) + (tier == 'thorough'))  # lift: checks whose thorough bounds are cheap use them in the quick tier too
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode or not os.path.exists(out):
                print(p.stdout[-3000:]); print('check.py: harness failed', p.returncode); sys.exit(2)
            r = json.loads(open(out, errors='replace').read())
            results.append((hs, r))
            for v in r['violations']:
                v['harness'] = name
                if v['key'] == 'harness-error': errors.append(v); continue
                if not v['confirmed']: infra.append(v); continue
                m = [k for k in known() if k['property'] == pid and k['status'] == 'known' and re.fullmatch(k['key'], v['key']) and re.search(k.get('case', ''), v['case'])]
                if m: knownhit.append((m[0], v))
                else: viol.append(v)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    cov = dict(states=sum(r['cases'] for _, r in results), transitions=sum(r['ops'] for _, r in results),
               traces_validated_against_impl=sum(r['cmps'] for _, r in results),
               distinct_outcomes=sum(r['outcomes'] for _, r in results),
               exhaustive=not any(r['capped'] for _, r in results),
               rule=spec.get('rule', ''),
               samples=[dict(harness=r['harness'], cases=r['samples']) for _, r in results],
               bounds=[dict(harness=r['harness'], alphabet=r['alphabet'], cases=r['cases'], api_calls=r['ops'], comparisons=r['cmps'], outcomes=r['outcomes'], capped=r['capped'], wall_s=r['wall'], extra=r.get('extra', {})) for _, r in results],
               unconfirmed=[dict(key=v['key'], case=v['case'], text=v['text']) for v in infra][:10])
    seen = set()
    for k, v in knownhit:
        if k['id'] in seen: continue
        seen.add(k['id'])
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['id'], k['what']))
    cov['known_findings_seen'] = sorted(seen)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    n = 0
    for v in viol:
        n += 1
        if n > 8: break
        rp = os.path.join(rpdir, '%s-%d.json' % (pid, n))
        json.dump(dict(property=pid, tier=tier, harness=v['harness'], choices=v['choices'], key=v['key'], case=v['case'], text=v['text'], replay_output=v['replay'], how='python3 check.py %s --replay %s' % (pid, rp)), open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('   key=%s case=%s: %s %s' % (v['key'], v['case'], v['text'], v['replay'][:600]))
    print('%s: %s tier=%s states=%d calls=%d comparisons=%d outcomes=%d exhaustive=%s %.1fs' % (pid, 'VIOLATED' if viol else 'held', tier, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], cov['distinct_outcomes'], cov['exhaustive'], time.time() - t0))
    if errors and not viol: print('check.py: harness error', errors[0]['text']); sys.exit(2)
    sys.exit(1 if viol else 0)
main()
