"""C24 stage: runs the project's code generator (ASan+UBSan, unprivileged, on a private copy of the tree, twice), rebuilds the library from
what it wrote and compares recorded behaviour of the two builds; then once more from edited metadata tables."""
import glob, json, os, re, shutil, stat, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import build, c14xml, c24new
REL = 'ta-lib-rt'
with open(os.path.join(build.VERIF, 'tools', 'gensec.json')) as _f: REF = json.load(_f)
SAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
STRICT = ['-fsyntax-only', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Werror=implicit-int', '-Werror=return-type']
def gen_exe(src, flags, name):
    """gen_code from the sources of tree `src`"""
    c = src + '/c'; g = c + '/src/tools/gen_code'
    inc = ['-I%s/%s' % (c, d) for d in ('include', 'src/ta_abstract', 'src/ta_abstract/frames', 'src/ta_common', 'src/ta_func')] + ['-I' + g]
    srcs = sorted(glob.glob(g + '/*.c')) + [c + '/src/ta_abstract/%s.c' % x for x in ('ta_abstract', 'ta_def_ui', 'ta_group_idx')] + sorted(glob.glob(c + '/src/ta_abstract/tables/*.c') + glob.glob(c + '/src/ta_common/*.c'))
    hs = build.headers([c + '/include', c + '/src', g])
    hh = build.digest(*[x for p in hs for x in (p.replace(src, ''), build.rd(p))])
    key = build.digest(' '.join(flags), hh, *[x for p in srcs for x in (os.path.basename(p), build.rd(p))])
    out = os.path.join(build.BUILD, 'bin', key + '-' + name)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True); od = out + '.o%d' % os.getpid(); os.makedirs(od)
        def one(s):
            o = '%s/%s.o' % (od, os.path.basename(s)); build.sh(['gcc', '-w', '-DTA_GEN_CODE'] + flags + inc + ['-c', s, '-o', o]); return o
        try:
            with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, srcs))
            build.sh(['gcc'] + flags + objs + ['-o', out + '.t%d' % os.getpid(), '-lm']); os.replace(out + '.t%d' % os.getpid(), out)
        finally: shutil.rmtree(od, ignore_errors=True)
    else: os.utime(out)
    return out
def copy_tree(src, dst):
    shutil.copytree(src, dst, symlinks=True, ignore=shutil.ignore_patterns('*.jar', '*.exe', '*.dll', '*.lib', 'Release', 'Debug', '_build', '.git', 'excel', 'ta_regtest'))
    for d in ('c/bin', 'c/temp'): os.makedirs(dst + '/' + d, exist_ok=True)
def own(path):
    if os.geteuid() != 0: return
    for root, ds, fs in os.walk(path):
        for n in [root] + [os.path.join(root, f) for f in fs]: os.chown(n, 65534, 65534, follow_symlinks=False)
def run_gen(exe, tree, tmp, timeout=300):
    """one run, as an unprivileged user with a PATH that holds only stand-ins for the tools that are not here (the Java post-processing)"""
    st = tmp + '/stubs'
    if not os.path.isdir(st):
        os.makedirs(st)
        for n, body in (('mcpp', 'cat >/dev/null </dev/null'), ('javac', ':'), ('java', 'exit 1')):
            with open(st + '/' + n, 'w') as f: f.write('#!/bin/sh\n%s\n' % body)
            os.chmod(st + '/' + n, 0o755)
        os.symlink('/usr/bin/sed', st + '/sed'); os.symlink('/bin/cat', st + '/cat')
    ex = tmp + '/gen_code.%s' % os.path.basename(exe)[:12]
    if not os.path.exists(ex): shutil.copy(exe, ex); os.chmod(ex, 0o755)
    os.chmod(tmp, 0o711); own(tree)
    env = {'PATH': st, 'LC_ALL': 'C', 'HOME': '/nonexistent', 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=77:print_stacktrace=1'}
    kw = dict(cwd=tree + '/c/bin', env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    def start():
        if os.geteuid() == 0:
            try: return subprocess.Popen([ex], user=65534, group=65534, extra_groups=[], **kw)
            except (OSError, subprocess.SubprocessError): pass
        return subprocess.Popen([ex], **kw)
    p = start()
    try: o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return None, '', 'no end within %d s' % timeout
    return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
SKIP = re.compile(r'^(java/|c/bin/|c/temp/|c/src/ta_abstract/ta_func_api\.c$)')
def snapshot(tree):
    out = {}
    for root, _, fs in os.walk(tree):
        for f in fs:
            p = os.path.join(root, f); r = os.path.relpath(p, tree)
            if SKIP.match(r) or os.path.islink(p): continue
            b = build.rd(p)
            if r == 'ta_func_api.xml': b = re.sub(rb'(<FinancialFunctionGroups\b[^>]*?)version="[^"]*"', rb'\1', b, count=1)
            out[r] = b
    return out
def norm(b):
    """text without comments and white space"""
    b = re.sub(rb'/\*.*?\*/|<!--.*?-->', b'', b, flags=re.S); b = re.sub(rb'(?m)^\s*(//|#\s).*$', b'', b)
    return re.sub(rb'\s+', b'', b)
def compiles(tree, f):
    c = tree + '/c'; inc = ['-I%s/%s' % (c, d) for d in ('include', 'src/ta_abstract', 'src/ta_abstract/frames', 'src/ta_common', 'src/ta_func')]
    return subprocess.run(['gcc'] + STRICT + inc + [f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
def sections(b):
    """hashes of the normalised text of each generated section and of the code around them"""
    out = {}; sec = None; cur = []; hand = []
    for l in b.split(b'\n'):
        l = l.rstrip(b'\r')
        m = re.match(rb'/\*{4} (START|END) GENCODE SECTION (\d+)', l)
        if m and m.group(1) == b'START': sec, cur = m.group(2).decode(), []
        elif m and sec:
            out[sec] = b'\n'.join(cur); sec = None
        elif sec: cur.append(re.sub(rb'^/\* Generated \*/', b'', l))
        else: hand.append(l)
    out['hand'] = b'\n'.join(hand)
    return {k: build.digest(norm(v))[:8] for k, v in out.items()}
def untouched(path):
    """the generated sections and the code around them are those of the pinned tree, so the generator has no hand-written change to lose or to copy"""
    return REF.get(re.sub(r'.*/ta_(\w+)\.c', r'\1', path)) == sections(build.rd(path))
def rewritten(tree):
    """functions whose hand-written part is not the pinned one: their single-precision copy may lag behind it until the generator runs (C05 compares the two forms)"""
    return {n for n, r in REF.items() for p in [tree + '/c/src/ta_func/ta_%s.c' % n] if os.path.exists(p) and sections(build.rd(p)).get('hand') != r.get('hand')}
def fall_back(tree, ref, changed):
    """regenerated function files that no longer compile on their own because hand-written code sat in a generated section are put back"""
    fs = [r for r in changed if re.match(r'c/src/ta_func/ta_\w+\.c$', r)]
    with ThreadPoolExecutor(8) as ex: ok = list(ex.map(lambda r: compiles(tree, tree + '/' + r) or not compiles(ref, ref + '/' + r), fs))
    bad = [r for r, k in zip(fs, ok) if not k and not untouched(ref + '/' + r)]
    for r in bad: shutil.copyfile(ref + '/' + r, tree + '/' + r)
    return bad
def build_tree(top, variant='plain', extra=None):
    env = dict(os.environ, VERIF_REPO=top, VERIF_BUILD=build.BUILD); env.pop('VERIF_EXTRA', None)
    if extra: env['VERIF_EXTRA'] = extra
    r = subprocess.run([sys.executable, os.path.join(build.VERIF, 'tools', 'build.py'), variant], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode(errors='replace')
    return (o.split()[-1] if r.returncode == 0 else None), o
def shards(exe, sub, cases, seed, tmp, viol, stats, samples, timeout=300):
    def job(i):
        d = '%s/r%d' % (tmp, i); os.makedirs(d, exist_ok=True)
        s = sub if sub == 'meta' else '%s%s/trace.%d' % (sub, tmp, i)
        try: p = subprocess.run([exe, '--prop', 'C24', '--sub', s, '--seed', str(seed), '--cases', str(cases), '--shard', '%d/8' % i, '--tmp', d, '--prog', d + '/prog'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired: return None, '', 'timeout', d
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), d
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(job, range(8)))
    for rc, o, e, d in res:
        for l in o.splitlines():
            if l.startswith('V {'): viol.append(json.loads(l[2:], strict=False))
            elif l.startswith('S '):
                _, k, x = l.split(' '); stats[k] = stats.get(k, 0) + float(x)
            elif l.startswith('SAMPLE '): samples.append(l[7:])
        if rc == 3: raise build.BuildError('trace harness: ' + e[-400:])
        if rc != 0 and not sub.startswith('rec'):
            b = build.rd(d + '/prog'); viol.append({'fn': b[:48].split(b'\0')[0].decode(), 'kind': 'crash', 'case': -1, 'detail': 'the regenerated library ended with %s during "%s"' % (rc, b[56:120].split(b'\0')[0].decode(errors='replace'))})
        elif rc != 0: raise build.BuildError('recording failed (%s): %s' % (rc, e[-400:]))
def edit_tables(tree, k):
    """other limits and defaults in the metadata tables of a copy; returns the number of edits"""
    n = 0
    def sub(pat, fn, s):
        nonlocal n
        s, m = re.subn(pat, fn, s); n += m; return s
    for p in [tree + '/c/src/ta_abstract/ta_def_ui.c'] + sorted(glob.glob(tree + '/c/src/ta_abstract/tables/*.c')):
        with open(p, newline='', errors='surrogateescape') as f: s = f.read()
        s = sub(r'(TA_IntegerRange\s+\w+\s*=\s*\{\s*)([1-9]\d*)(\s*,[^,{}]*?)(\d{5,})(\s*,)', lambda m: m.group(1) + str(int(m.group(2)) + 1) + m.group(3) + str(int(m.group(4)) - 9 - k) + m.group(5), s)
        s = sub(r'(TA_RealRange\s+\w+\s*=\s*\{\s*)(0\.0+)(\s*,[^,{}]*?)(1\.0+)(\s*,)', lambda m: m.group(1) + '0.0' + str(1 + k % 5) + m.group(3) + '0.9' + str(1 + k % 5) + m.group(5), s)
        s = sub(r'(TA_RealRange\s+\w+\s*=\s*\{\s*)(0\.0+)(\s*,[^,{}]*?)TA_REAL_MAX(\s*,)', lambda m: m.group(1) + '0.0078125' + m.group(3) + '%d.5' % (1000 + k) + m.group(4), s)
        s = sub(r'(TA_RealRange\s+\w+\s*=\s*\{\s*)TA_REAL_MIN(\s*,[^,{}]*?)TA_REAL_MAX(\s*,)', lambda m: m.group(1) + '-%d.5' % (37 + k) + m.group(2) + '41.25' + m.group(3), s)
        s = sub(r'(?m)^(\s*)(\d+\.\d+)(\s*,\s*/\*\s*defaultValue\s*\*/)', lambda m: m.group(1) + '%.5g' % (float(m.group(2)) + (1 + k % 3) / 64) + m.group(3), s)
        s = sub(r'(?m)^(\s*)0(\s*,\s*/\*\s*defaultValue = simple average)', lambda m: m.group(1) + str(2 + k % 3) + m.group(2), s)
        s = sub(r'(TA_IntegerDataPair TA_MA_TypeDataPair\[\][^;]*?)\{\d+\s*,\s*"\w+"\s*\}\s*,\s*(/\*[^*]*\*/\s*)?\};', lambda m: m.group(1) + '};', s)
        s = sub(r'(?m)^(\s*)([1-9]\d*)(\s*,\s*/\*\s*defaultValue\s*\*/)', lambda m: m.group(1) + str(int(m.group(2)) + 1 + k % 3) + m.group(3), s)
        s = sub(r'(?m)^(\s*")([^"\n]*)("\s*,\s*/\*\s*(?:displayName|hint)\s*\*/)', lambda m: m.group(1) + m.group(2) + ' & 50% <of> it' + m.group(3), s)
        if '/tables/' in p:
            m = list(re.finditer(r'(DEF_FUNCTION\(\s*\w+\s*,[^,;"]*,[^,;"]*")([^"]*)("\s*,[^,;]*,(?:\s|/\*[^*]*\*/)*)0(\s*(?:/\*[^*]*\*/)?\s*\);)', s))
            if m:   # one function per table gets an unstable period and another description
                m = m[k % len(m)]; n += 1; s = s[:m.start()] + re.sub(r'//.*|/\*.*?\*/', '', m.group(1)) + m.group(2) + ' <edited> & \\\'more\\\' \\"x\\"'  + m.group(3) + 'TA_FUNC_FLG_UNST_PER' + m.group(4) + s[m.end():]
        with open(p, 'w', newline='', errors='surrogateescape') as f: f.write(s)
    return n
def new_functions(tree, k):
    """removes the source of a few functions no other function uses, so that the generator has to start them from its template"""
    fs = sorted(glob.glob(tree + '/c/src/ta_func/ta_[A-Z]*.c')); names = [os.path.basename(f)[3:-2] for f in fs]; used = set()
    for f, n in zip(fs, names):
        body = re.sub(rb'(?m)^/\* Generated \*/.*$', b'', build.rd(f)).decode(errors='replace')
        used |= {w for w in re.findall(r'[A-Z][A-Z0-9_]+', body.replace('TA_', ' ').replace('_', ' ')) if w != n}
    cand = [f for f, n in zip(fs, names) if n not in used]; out = []
    for i in range(min(8, len(cand) // 3)):
        f = cand.pop((k * 7919 + i * 104729) % len(cand)); os.unlink(f); out.append(os.path.relpath(f, tree))
    return out
def run(tmp, tier, seed):
    t0 = time.time(); viol, stats, samples = [], {}, []
    def v(fn, kind, detail): viol.append({'fn': fn, 'kind': kind, 'case': -1, 'detail': detail})
    def st(k, x=1): stats[k] = stats.get(k, 0) + x
    def ret(): return {'violations': viol, 'stats': stats, 'samples': samples, 'wall': time.time() - t0}
    exe = gen_exe(build.SRC, SAN, 'gen_code-asan'); own_exe = build.tamon('plain')
    tree = tmp + '/reg/' + REL; os.makedirs(tmp + '/reg'); copy_tree(build.SRC, tree)
    shutil.copy(build.gen_func_api(), tree + '/c/src/ta_abstract/ta_func_api.c')
    before = snapshot(tree)
    for i in (1, 2, 3):   # where a check changes, the single-precision copy follows one run later, so a third run may be needed to judge
        rc, o, e = run_gen(exe, tree, tmp); st('generator_runs')
        if rc != 0 or 'success' not in o:
            m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*)', e); w = re.search(r'(/ta-lib-rt/\S+?:\d+)', e)
            v('gen_code', 'generator', 'run %d ended with %s: %s %s %s' % (i, rc, m.group(1) if m else '', w.group(1) if w else '', o[-200:].replace('\n', ' '))); return ret()
        after = snapshot(tree)
        if i > 1:
            again = [r for r in sorted(set(prev) | set(after)) if prev.get(r) != after.get(r)]; st('idempotence_files', len(after))
            if not again: break
            if i == 3: v('gen_code', 'idempotence', 'a third run changes %s again' % again[0])
        prev = after
    st('processed_functions', len(re.findall(r'Processing \[TA_\w+\]', o)))
    changed = [r for r in sorted(set(before) | set(after)) if before.get(r) != after.get(r)]; st('rewritten_files', len(changed))
    for r in changed:
        if r.endswith(('.c', '.h')) and r in before and r in after: continue
        if r not in after: v('gen_code', 'deleted', '%s is gone' % r)
        elif r not in before: v('gen_code', 'created', '%s appeared' % r)
        elif norm(before[r]) != norm(after[r]): v('gen_code', 'out-of-step', '%s is not what the metadata tables generate' % r)
    bad = fall_back(tree, build.SRC, changed); st('files_not_judged', len(bad))
    if len(bad) > 20: v('gen_code', 'not-compilable', '%d regenerated function files do not compile, e.g. %s' % (len(bad), bad[0])); return ret()
    reg, log = build_tree(tmp + '/reg')
    if not reg: v('gen_code', 'not-compilable', 'the regenerated tree does not build: ' + (re.search(r'error: .*|undefined reference.*', log) or re.match('.*', log)).group(0)[:300]); return ret()
    st('rebuilds')
    lag = rewritten(build.SRC); st('single_precision_not_compared', len(lag))
    rounds, cases = (1, 480) if tier == 'quick' else (12, 480)
    for k in range(rounds):
        shards(own_exe, 'rec:', cases, seed * 100 + k, tmp, [], {}, [])
        vv = []; shards(reg, 'cmp:', cases, seed * 100 + k, tmp, vv, stats, samples)
        viol += [x for x in vv if not (x['fn'] in lag and x['detail'].startswith('single precision:'))]
        for f in glob.glob(tmp + '/trace.*'): os.unlink(f)
        if viol: break
    # edited tables
    for k in range(1 if tier == 'quick' else 4):
        t2 = tmp + '/edit%d/' % k + REL; os.makedirs(tmp + '/edit%d' % k); copy_tree(build.SRC, t2)
        shutil.copy(build.gen_func_api(), t2 + '/c/src/ta_abstract/ta_func_api.c')
        n = edit_tables(t2, seed + k); st('table_edits', n)
        if n < 10: st('edits_not_possible'); break
        gone = new_functions(t2, seed + k); st('new_functions', len(gone)); added = c24new.add(t2, seed + k); st('added_definitions', len(added))
        with open(t2 + '/c/src/ta_abstract/ta_def_ui.c', errors='surrogateescape') as f: nma = len(re.findall(r'\{\d+\s*,\s*"\w+"\s*\}', re.search(r'TA_MA_TypeDataPair\[\][^;]*;', f.read()).group(0)))
        extra = tmp + '/added%d.c' % k
        with open(extra, 'w') as f: f.write(c24new.test(added, nma))
        gone += ['c/src/ta_func/ta_%s.c' % d['name'] for d in added]
        try: ex2 = gen_exe(t2, SAN, 'gen_code-edit')
        except build.BuildError: st('edits_not_possible'); break
        b2 = snapshot(t2); st('generator_runs', 2)
        for _ in (1, 2):   # the single-precision copy is made from the file as it was before the run
            rc, o, e = run_gen(ex2, t2, tmp)
            if rc != 0: break
        if rc != 0 or 'success' not in o: v('gen_code', 'generator', 'with edited tables it ended with %s' % rc); break
        lost = [f for f in gone if not os.path.exists(t2 + '/' + f)]
        if lost: v(re.sub(r'.*/ta_(\w+)\.c', r'\1', lost[0]), 'no-skeleton', 'no source file is made for a function that has none (%s)' % lost[0]); break
        a2 = snapshot(t2); ch = [r for r in sorted(a2) if b2.get(r) != a2[r] and r not in gone]; st('rewritten_files_edited', len(ch))
        bad2 = fall_back(t2, build.SRC, ch); st('files_not_judged', len(bad2)); skip = {re.sub(r'.*/ta_(\w+)\.c', r'\1', r) for r in bad2 + bad}
        if len(bad2) > 20: v('gen_code', 'not-compilable', 'with edited tables %d regenerated function files do not compile, e.g. %s' % (len(bad2), bad2[0])); break
        x2, log = build_tree(tmp + '/edit%d' % k, 'o0', extra)
        if not x2: v('gen_code', 'not-compilable', 'with edited tables the regenerated tree does not build: ' + (re.search(r'error: .*|undefined reference.*', log) or re.match('.*', log)).group(0)[:300]); break
        xv, xn, _ = c14xml.compare(x2, t2, tmp); viol += xv; st('xml_comparisons', xn)
        vv = []; shards(x2, 'meta', 16, seed + k, tmp, vv, stats, samples)
        viol += [x for x in vv if x['fn'] not in skip]; shutil.rmtree(tmp + '/edit%d' % k, ignore_errors=True)
        try: os.unlink(x2); os.unlink(ex2)
        except OSError: pass
    return ret()
