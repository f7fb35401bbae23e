"""Builds the library from /repo's working tree plus the monitors, per sanitizer variant, into a
content-addressed cache (/verif/build, git-ignored).  Nothing is ever written below /repo."""
import glob, hashlib, os, subprocess, sys, shutil, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'ta-lib-rt')
C = os.path.join(SRC, 'c')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
INC = ['-I%s/%s' % (C, d) for d in ('include', 'src/ta_abstract', 'src/ta_abstract/frames', 'src/ta_common', 'src/ta_func')]
VAR = {
    'plain': ('gcc', 'g++', ['-O2', '-g1']),
    'o0': ('gcc', 'g++', ['-O0', '-g1']),
    'asan': ('gcc', 'g++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all']),
    'msan': ('clang', 'clang++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins=0', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-U_FORTIFY_SOURCE']),
    'tsan': ('clang', 'clang++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread']),
}
class BuildError(Exception): pass
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd)[:400], r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout
def rd(p):
    with open(p, 'rb') as f: return f.read()
def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(str(len(p)).encode() + b':' + p)
    return h.hexdigest()[:24]
def headers(dirs):
    out = []
    for d in dirs:
        for root, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith(('.h', '.inc')): out.append(os.path.join(root, f))
    return sorted(out)
_hh = {}
def hdr_hash(key, dirs):
    if key not in _hh: _hh[key] = digest(*[x for p in headers(dirs) for x in (p.replace(REPO, ''), rd(p))])
    return _hh[key]
def lib_dirs(): return [C + '/include', C + '/src/ta_abstract', C + '/src/ta_common', C + '/src/ta_func']
def compile_all(jobs):
    """jobs: (compiler, flags, src, hdrhash) -> list of object files; cached by content."""
    od = os.path.join(BUILD, 'obj'); os.makedirs(od, exist_ok=True)
    def one(j):
        cc, fl, src, hh = j
        o = os.path.join(od, digest(cc, ' '.join(fl).replace(REPO, ''), os.path.basename(src), rd(src), hh) + '.o')
        if not os.path.exists(o):
            t = o + '.%d.%d' % (os.getpid(), threading.get_ident())
            sh([cc] + fl + ['-c', src, '-o', t]); os.replace(t, o)
        else:
            os.utime(o)
        return o
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: return list(ex.map(one, jobs))
def link(cc, flags, objs, name, extra=()):
    out = os.path.join(BUILD, 'bin', digest(cc, ' '.join(flags), ' '.join(extra), *objs) + '-' + name)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True); t = out + '.%d' % os.getpid()
        sh([cc] + flags + objs + ['-o', t] + list(extra) + ['-lm', '-lpthread']); os.replace(t, out)
    return out
def gen_func_api():
    """ta_func_api.c (git-ignored in /repo) made from ta_func_api.xml with the project's own gen_code, in a private tree."""
    g = C + '/src/tools/gen_code'
    d = os.path.join(BUILD, 'gen'); os.makedirs(d, exist_ok=True)
    main = os.path.join(d, 'gen_main.c'); txt = '#define main gen_code_main\n#include "gen_code.c"\n#undef main\nint main(void){return generateFuncAPI_C()==1?0:1;}\n'
    if not os.path.exists(main) or rd(main).decode() != txt:
        with open(main + '.t%d' % os.getpid(), 'w') as f: f.write(txt)
        os.replace(main + '.t%d' % os.getpid(), main)
    fl = ['-w', '-O0', '-DTA_GEN_CODE', '-I' + g] + INC
    hh = digest(hdr_hash('lib', lib_dirs()), hdr_hash('gen', [g]), rd(g + '/gen_code.c'))
    srcs = [main] + sorted(glob.glob(g + '/print_*.c')) + [C + '/src/ta_abstract/%s.c' % x for x in ('ta_abstract', 'ta_def_ui', 'ta_group_idx')] + sorted(glob.glob(C + '/src/ta_abstract/tables/*.c') + glob.glob(C + '/src/ta_common/*.c'))
    exe = link('gcc', [], compile_all([('gcc', fl, s, hh) for s in srcs]), 'gen_func_api')
    xml = SRC + '/ta_func_api.xml'
    tp = C + '/src/ta_abstract/templates'
    out = os.path.join(d, 'ta_func_api.%s.c' % digest(rd(xml), os.path.basename(exe)))
    if not os.path.exists(out):
        t = os.path.join(d, 'tree.%d' % os.getpid()); shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t + '/c/bin'); os.makedirs(t + '/c/src/ta_abstract')
        shutil.copy(xml, t + '/ta_func_api.xml')
        os.symlink(tp, t + '/c/src/ta_abstract/templates')
        sh([exe], cwd=t + '/c/bin')
        os.replace(t + '/c/src/ta_abstract/ta_func_api.c', out); shutil.rmtree(t, ignore_errors=True)
    return out
def lib_sources():
    s = sorted(glob.glob(C + '/src/ta_func/*.c') + glob.glob(C + '/src/ta_common/*.c'))
    s += [p for p in sorted(glob.glob(C + '/src/ta_abstract/*.c')) if os.path.basename(p) not in ('excel_glue.c', 'ta_func_api.c')]
    s += sorted(glob.glob(C + '/src/ta_abstract/tables/*.c') + glob.glob(C + '/src/ta_abstract/frames/*.c'))
    return s
def tamon(variant):
    cc, cxx, fl = VAR[variant]
    api = gen_func_api()
    lh = hdr_hash('lib', lib_dirs()); vh = hdr_hash('verif', [VERIF + '/src'])
    lfl = ['-w'] + fl + INC
    vfl = ['-w'] + fl + ['-I' + VERIF + '/src'] + INC
    jobs = [(cc, lfl, s, lh) for s in lib_sources()] + [(cc, lfl, api, lh)]
    jobs += [(cxx, ['-std=c++17'] + vfl, s, lh + vh) for s in sorted(glob.glob(VERIF + '/src/*.cpp'))]
    jobs += [(cc, vfl, s, lh + vh) for s in sorted(glob.glob(VERIF + '/src/*.c'))]
    if os.environ.get('VERIF_EXTRA'): jobs.append((cc, vfl, os.environ['VERIF_EXTRA'], lh))
    jobs.sort(key=lambda j: -os.path.getsize(j[2]))
    return link(cxx, fl, compile_all(jobs), 'tamon-' + variant, ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'])
def prune(keep=6000):
    """Bounds the cache."""
    for sub, n in (('obj', keep), ('bin', 30)):
        fs = sorted(glob.glob(os.path.join(BUILD, sub, '*')), key=os.path.getmtime)
        for p in fs[:-n]:
            try: os.unlink(p)
            except OSError: pass
if __name__ == '__main__':
    import time
    for v in sys.argv[1:] or ('plain', 'asan', 'msan', 'tsan'):
        t = time.time(); p = tamon(v); print('%-6s %6.1fs %s' % (v, time.time() - t, p), flush=True)
