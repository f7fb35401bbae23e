#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.
   check.py C06            (tier and seed from VERIF_TIER / VERIF_SEED)
   check.py C06 --replay <file>     re-runs the case recorded in a replay file
Exit 0: held on everything observed.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Anything else is an error of the check itself."""
import json, os, re, subprocess, sys, tempfile, time, shutil, signal, struct
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import build
VERIF = build.VERIF
from plan import PLAN
KNOWN = os.path.join(VERIF, 'known_findings.txt')
ENV = {
    'asan': {'ASAN_OPTIONS': 'halt_on_error=1:abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4000', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77'},
    'msan': {'MSAN_OPTIONS': 'halt_on_error=1:exitcode=77:allocator_may_return_null=1'},
    'tsan': {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=4'},
    'plain': {},
}
def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) fn=(\S+) kind=(\S+)(?: match=/(.*?)/)? *:: *(.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4), m.group(5)))
    return out
def read_prog(p):
    try:
        b = open(p, 'rb').read()
        fn = b[:48].split(b'\0')[0].decode(errors='replace'); cs, = struct.unpack('<q', b[48:56]); step = b[56:120].split(b'\0')[0].decode(errors='replace')
        return fn, cs, step
    except Exception: return '?', -1, '?'
def summary(err, rc):
    for pat in (r'SUMMARY: (\w+Sanitizer: \S+)', r'runtime error: (.*)', r'ERROR: (\w+Sanitizer: \S+)', r'WARNING: (\w+Sanitizer: .*?) \(', r'(Assertion .* failed)'):
        m = re.search(pat, err)
        if m: return re.sub(r'0x[0-9a-f]+', 'ADDR', m.group(1))[:140]
    if rc < 0:
        try: return signal.Signals(-rc).name
        except ValueError: return 'signal %d' % -rc
    return 'exit %d' % rc
def locate(err):
    m = re.search(r'(/ta-lib-rt/\S+?:\d+)', err)
    return m.group(1) if m else ''
def run_proc(cmd, env, timeout, cwd):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try: out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, err = p.communicate()
        return None, out.decode(errors='replace'), err.decode(errors='replace'), time.time() - t0
    return p.returncode, out.decode(errors='replace'), err.decode(errors='replace'), time.time() - t0
def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    cfg = PLAN[prop]; t0 = time.time()
    only = None
    if '--replay' in sys.argv:
        only = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
    tmp = tempfile.mkdtemp(prefix='tamon-')
    viol, stats, samples, inconc, stages = [], {}, [], [], []
    try:
        for si, st in enumerate(cfg['stages']):
            if st.get('tier') and st['tier'] != tier: continue
            if only and only['stage'] != si: continue
            if st.get('py'):
                mod = __import__(st['py']); r = mod.run(tmp, tier, seed); viol += [dict(v, stage=si) for v in r['violations']]
                samples += r.get('samples', [])
                for k, v in r['stats'].items(): stats[k] = stats.get(k, 0) + v
                stages.append({'stage': st.get('name', st['py']), 'wall_s': round(r.get('wall', 0), 1)}); continue
            exe = build.tamon(st['variant'])
            cases = st['thorough'] if tier == 'thorough' else st['quick']
            n = st.get('shards', 8); timeout = st.get('timeout', 380 if tier == 'quick' else 3000)
            env = {k: v for k, v in os.environ.items() if not k.startswith(('ASAN', 'UBSAN', 'MSAN', 'TSAN', 'LSAN', 'TA_'))}
            env.update(ENV[st['variant']]); env.update(st.get('env', {})); env['LC_ALL'] = 'C'
            for k in list(env):
                if k.endswith('_OPTIONS') and k + '+' in env: env[k] += ':' + env.pop(k + '+')
            def job(i):
                d = os.path.join(tmp, 's%d_%d' % (si, i)); os.makedirs(d, exist_ok=True); pf = os.path.join(d, 'prog')
                cmd = [exe, '--prop', st.get('prop', prop), '--seed', str(seed if not only else only['seed']), '--tier', tier, '--tmp', d, '--prog', pf, '--cases', str(cases)]
                if st.get('sub'): cmd += ['--sub', st['sub']]
                if only:
                    cmd += ['--fn', only['fn']] if only['fn'] not in ('', '?', '-') and st.get('perfn', True) else []
                    if only['case'] >= 0: cmd += ['--case', str(only['case'])]
                else: cmd += ['--shard', '%d/%d' % (i, n)]
                for attempt in (0, 1):
                    rc, out, err, w = run_proc(cmd, env, timeout, d)
                    if rc is not None or attempt: break
                fn, cs, step = read_prog(pf)
                return i, rc, out, err, w, fn, cs, step, cmd
            with ThreadPoolExecutor(8) as ex: res = list(ex.map(job, range(1 if only else n)))
            for i, rc, out, err, w, fn, cs, step, cmd in res:
                done = False
                for l in out.splitlines():
                    if l.startswith('V {'):
                        try: v = json.loads(l[2:], strict=False)
                        except ValueError: v = {'fn': '?', 'kind': 'unparsed', 'case': -1, 'detail': l}
                        v.update(stage=si, cmd=cmd); viol.append(v)
                    elif l.startswith('S '):
                        _, k, x = l.split(' '); x = float(x)
                        if k.startswith('max_'): stats[k] = max(stats.get(k, x), x)
                        else: stats[k] = stats.get(k, 0) + x
                    elif l.startswith('SAMPLE '): samples.append(l[7:])
                    elif l.startswith('I '): inconc.append(l[2:])
                    elif l.startswith('DONE '): done = True
                if rc is None:
                    viol.append({'fn': fn, 'kind': 'hang', 'case': cs, 'detail': 'no answer within %d s, twice, in step "%s"' % (timeout, step), 'stage': si, 'cmd': cmd})
                elif rc == 3:
                    sys.stderr.write('harness error: %s\n%s\n' % (' '.join(cmd), err[-2000:])); return 2
                elif rc != 0 or not done:
                    s = summary(err, rc)
                    kind = 'crash' if not re.search('Sanitizer|runtime error', err) else 'sanitizer'
                    viol.append({'fn': fn, 'kind': kind, 'case': cs, 'detail': '%s at %s during "%s"' % (s, locate(err), step), 'stage': si, 'cmd': cmd, 'stderr': err[-6000:]})
            stages.append({'stage': st.get('name', st['variant']), 'variant': st['variant'], 'cases_per_function': cases, 'wall_s': round(max(r[4] for r in res), 1)})
    except build.BuildError as e:
        sys.stderr.write('build error: %s\n' % e); return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kf = known_findings(prop); fresh = []; hit = {}
    for v in viol:
        for k in kf:
            if v['fn'] == k[0] and v['kind'] == k[1] and (not k[2] or re.search(k[2], v['detail'])): hit[k] = v; break
        else: fresh.append(v)
    for k in kf:
        if k in hit: print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    st = {k: (int(x) if x == int(x) else x) for k, x in sorted(stats.items())}
    ev = int(st.get('evaluations', 0)); dn = int(st.get('distinct_nontrivial', 0))
    missing = [k for k, m in cfg.get('need', {}).items() if st.get(k, 0) < m] if not only else []
    if not fresh and not only and (ev == 0 or missing):
        sys.stderr.write('observed too little: evaluations=%d below minimum: %s\n' % (ev, missing)); return 2
    picked = samples[::max(1, len(samples) // 12)][:12]
    cov = {'evaluations': ev, 'distinct_nontrivial': dn, 'rule': cfg['rule'], 'samples': picked or ['(none recorded)'],
           'observed': {k: x for k, x in st.items() if k not in ('evaluations', 'distinct_nontrivial')}, 'stages': stages, 'inconclusive': inconc[:20], 'known_findings_seen': len(hit)}
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'exploration'), 'coverage': cov, 'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(fresh)}, f, indent=1)
    if fresh:
        rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        shown = {}
        for v in fresh:
            key = (v['fn'], v['kind'])
            if key in shown: continue
            p = os.path.join(rd, '%s-%d.json' % (prop, len(shown))); shown[key] = p
            v['seed'] = seed; v['tier'] = tier
            with open(p, 'w') as f: json.dump(v, f, indent=1)
            print('%s: %s: %s' % (v['fn'], v['kind'], v['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)
            if len(shown) >= 10: break
        return 1
    print('%s: held on %d evaluations (%d distinct non-trivial), %.0f s' % (prop, ev, dn, time.time() - t0))
    return 0
if __name__ == '__main__':
    r = main(); build.prune() if False else None
    sys.exit(r)
