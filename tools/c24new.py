"""C24: functions added to the metadata tables of a copy, and the C test that follows from their definitions alone."""
import random
PR = ['Open', 'High', 'Low', 'Close', 'Volume', 'OpenInterest']
GR = ['MathOperators', 'MathTransform', 'OverlapStudies', 'VolatilityIndicators', 'MomentumIndicators', 'CycleIndicators', 'VolumeIndicators', 'Statistic', 'PriceTransform']
def define(name, R):
    d = {'name': name, 'camel': name[0] + name[1:].lower(), 'group': R.choice(GR), 'hint': 'Added function %s' % name, 'unst': R.random() < .5}
    ins = []
    if R.random() < .6:
        m = R.randint(1, 63); ins.append(('price', 'inPriceX', m))
    k = R.randint(0 if ins else 1, 2)
    for i in range(k): ins.append(('real', 'inReal%d' % i if k > 1 else 'inReal', 0))
    if R.random() < .4: ins.append(('int', 'inInteger', 0))
    R.shuffle(ins); d['in'] = ins
    d['args'] = [a for t, n, m in ins for a in ([('double', 'in' + p) for b, p in enumerate(PR) if m >> b & 1] if t == 'price' else [('int' if t == 'int' else 'double', n)])]
    d['out'] = [(R.choice(['real', 'int']), 'out' + x) for x in R.sample(['Alpha', 'Beta', 'Gamma', 'Delta'], R.randint(1, 3))]
    opts = []
    for i in range(R.randint(0, 5)):
        t = R.choice(['int', 'int', 'real', 'list', 'ma']); n = 'optIn' + ['First', 'Second', 'Third', 'Fourth', 'Fifth'][i]
        if t == 'int':
            lo = R.choice([1, 2, 3, 0, -200, 7]); hi = lo + R.randint(1, 1000); opts.append((t, n, lo, hi, R.randint(lo, hi)))
        elif t == 'real':
            lo = R.choice([0, .25, -3.5, -64, 1]); hi = lo + R.randint(1, 400) / 4; opts.append((t, n, lo, hi, lo + (hi - lo) * R.choice([0, .5, 1, .25])))
        elif t == 'list':
            v = R.sample(range(-3, 12), R.randint(2, 5)); opts.append((t, n, min(v), max(v), R.choice(v), v))
        else: opts.append((t, 'optIn%sMAType' % n[5:], 0, None, R.randint(0, 3)))
    if sum(1 for o in opts if o[0] == 'ma') > 1: opts = [o for i, o in enumerate(opts) if o[0] != 'ma' or i == min(j for j, p in enumerate(opts) if p[0] == 'ma')]
    d['opt'] = opts
    d['struct'] = [(R.choice(['Real', 'Integer']), 'field' + x) for x in R.sample(['One', 'Two', 'Three'], R.randint(0, 3))]
    return d
def table(d):
    N = d['name']; s = []; out = s.append
    def info(i): return 'TA_%s_X%d' % (N, i)
    ids = []
    for i, (t, n, m) in enumerate(d['in']):
        if t == 'price': fl = '|'.join('TA_IN_PRICE_' + p.upper() for b, p in enumerate(PR) if m >> b & 1); ty = 'Price'
        else: fl = '0'; ty = 'Integer' if t == 'int' else 'Real'
        out('static const TA_InputParameterInfo TA_%s_IN%d = { TA_Input_%s, "%s", %s };' % (N, i, ty, n, fl)); ids.append('&TA_%s_IN%d' % (N, i))
    out('static const TA_InputParameterInfo *TA_%s_Inputs[] = { %s, NULL };' % (N, ', '.join(ids))); ids = []
    for i, (t, n) in enumerate(d['out']):
        out('static const TA_OutputParameterInfo TA_%s_OUT%d = { TA_Output_%s, "%s", %s };' % (N, i, 'Integer' if t == 'int' else 'Real', n, 'TA_OUT_LINE' if i % 2 == 0 else 'TA_OUT_HISTO')); ids.append('&TA_%s_OUT%d' % (N, i))
    out('static const TA_OutputParameterInfo *TA_%s_Outputs[] = { %s, NULL };' % (N, ', '.join(ids))); ids = []
    for i, o in enumerate(d['opt']):
        v = 'TA_%s_RANGE%d' % (N, i)
        if o[0] == 'int': out('static const TA_IntegerRange %s = { %d, %d, %d, %d, 1 };' % (v, o[2], o[3], o[2], o[3])); ty = 'IntegerRange'
        elif o[0] == 'real': out('static const TA_RealRange %s = { %r, %r, 3, %r, %r, 0.5 };' % (v, float(o[2]), float(o[3]), float(o[2]), float(o[3]))); ty = 'RealRange'
        elif o[0] == 'list':
            out('static const TA_IntegerDataPair %s_P[] = { %s };' % (v, ', '.join('{%d,"v%d"}' % (x, x + 9) for x in o[5]))); out('static const TA_IntegerList %s = { &%s_P[0], %d };' % (v, v, len(o[5]))); ty = 'IntegerList'
        else: v = None; ty = 'IntegerList'
        out('static const TA_OptInputParameterInfo TA_%s_OPT%d = { TA_OptInput_%s, "%s", 0, "%s", (const void *)%s, %r, "%s hint", NULL };' % (N, i, ty, o[1], o[1][5:], '&' + v if v else '&TA_MA_TypeList', float(o[4]), o[1])); ids.append('&TA_%s_OPT%d' % (N, i))
    out('static const TA_OptInputParameterInfo *TA_%s_OptInputs[] = { %s };' % (N, ', '.join(ids + ['NULL']))); ids = []
    for i, (t, n) in enumerate(d['struct']): out('static const TA_InputParameterInfo TA_%s_ST%d = { TA_Input_%s, "%s", 0 };' % (N, i, t, n)); ids.append('&TA_%s_ST%d' % (N, i))
    out('static const TA_InputParameterInfo *TA_%s_StructParams[] = { %s };' % (N, ', '.join(ids + ['NULL'])))
    out('DEF_FUNCTION( %s, TA_GroupId_%s, "%s", "%s", %s );' % (N, d['group'], d['hint'], d['camel'], 'TA_FUNC_FLG_UNST_PER' if d['unst'] else '0'))
    return '\n'.join(s) + '\n'
def lit(o, v): return '%r' % float(v) if o[0] == 'real' else '(TA_MAType)%d' % v if o[0] == 'ma' else '%d' % v
def test(ds, nma):
    """C text of the test; nma: number of MA types in the edited tables"""
    s = ['#include <stdio.h>', '#include <string.h>', '#include <stdlib.h>', '#include <math.h>', '#include <limits.h>', '#include "ta_libc.h"', '#include "ta_abstract.h"',
         'extern void c24_extra_result(const char*fn,const char*what,double got,double want);', '#define N 12',
         'static double D[8][N];static float F[8][N];static int I[8][N];static double od[4][N];static int oi[4][N];',
         'static void prep(void){for(int k=0;k<8;k++)for(int i=0;i<N;i++){D[k][i]=100+k+(i*7%5);F[k][i]=(float)D[k][i];I[k][i]=i+k;}}',
         '#define OK(fn,w,g,x) c24_extra_result(fn,w,(double)(g),(double)(x))']
    for d in ds:
        N = d['name']; A = d['args']; O = d['opt']; U = d['out']; S = 'struct TA_%s_State' % N
        def hi(o): return nma - 1 if o[0] == 'ma' else o[3]
        def mid(o): return o[4]
        def ins(a='D', null=-1): return ['NULL' if i == null else ('I[%d]' % i if t == 'int' else '%s[%d]' % (a, i)) for i, (t, n) in enumerate(A)]
        def outs(null=-1, e=''): return ['NULL' if i == null else '(void*)%s[%d]%s' % ('oi' if t == 'int' else 'od', i, e) for i, (t, n) in enumerate(U)]
        def opts(j=-1, v=None): return [v if i == j else lit(o, mid(o)) for i, o in enumerate(O)]
        def call(pre, a, b, i, o, u): return 'TA_%s%s(%s)' % (pre, N, ', '.join([a, b] + i + o + ['&b', '&n'] + u))
        def lb(o): return 'TA_%s_Lookback(%s)' % (N, ', '.join(o))
        def init(o): return 'TA_%s_StateInit(%s)' % (N, ', '.join(['&st'] + o))
        w = []
        def chk(what, got, want): w.append('  OK("%s","%s",%s,%s);' % (N, what.replace('"', ''), got, want))
        for pre, a in (('', 'D'), ('S_', 'F')):
            chk(pre + 'call', call(pre, '0', 'N-1', ins(a), opts(), outs()), 'TA_SUCCESS'); chk('outNBElement', 'n', '0'); chk('outBegIdx', 'b', '0')
            chk(pre + 'startIdx -1', call(pre, '-1', 'N-1', ins(a), opts(), outs()), 'TA_OUT_OF_RANGE_START_INDEX')
            chk(pre + 'endIdx -1', call(pre, '0', '-1', ins(a), opts(), outs()), 'TA_OUT_OF_RANGE_END_INDEX'); chk(pre + 'reversed', call(pre, '5', '4', ins(a), opts(), outs()), 'TA_OUT_OF_RANGE_END_INDEX')
            for i in range(len(A)): chk('%smissing %s' % (pre, A[i][1]), call(pre, '0', 'N-1', ins(a, i), opts(), outs()), 'TA_BAD_PARAM')
            for i in range(len(U)): chk('%smissing %s' % (pre, U[i][1]), call(pre, '0', 'N-1', ins(a), opts(), outs(i)), 'TA_BAD_PARAM')
        chk('lookback', lb(opts()), '0'); w.append('  {%s*st=NULL,*s2=NULL;' % S)
        for j, o in enumerate(O):
            below = 'nextafter(%s,-1e300)' % lit(o, o[2]) if o[0] == 'real' else '(%s%d)' % ('TA_MAType)(' if o[0] == 'ma' else '', o[2] - 1); above = 'nextafter(%s,1e300)' % lit(o, hi(o)) if o[0] == 'real' else '(%s%d)' % ('TA_MAType)(' if o[0] == 'ma' else '', hi(o) + 1)
            dflt = 'TA_REAL_DEFAULT' if o[0] == 'real' else ('(TA_MAType)' if o[0] == 'ma' else '') + 'TA_INTEGER_DEFAULT'
            for v, ok in ((below, 0), (above, 0), (lit(o, o[2]), 1), (lit(o, hi(o)), 1), (dflt, 1)):
                t = '%s=%s' % (o[1], v)
                chk(t + ' lookback', lb(opts(j, v)), '0' if ok else '-1')
                for pre, a in (('', 'D'), ('S_', 'F')): chk('%s %s' % (t, pre), call(pre, '0', 'N-1', ins(a), opts(j, v), outs()), 'TA_SUCCESS' if ok else 'TA_BAD_PARAM')
                w.append('  st=NULL;'); chk(t + ' StateInit', init(opts(j, v)), 'TA_SUCCESS' if ok else 'TA_BAD_PARAM'); chk(t + ' handle', 'st!=NULL', ok)
                if ok: chk(t + ' kept', 'st?st->%s:0' % o[1], lit(o, mid(o)) if v == dflt else v)
                w.append('  if(st)TA_%s_StateFree(&st);' % N)
        w.append('  st=NULL;'); chk('StateInit', init(opts()), 'TA_SUCCESS'); chk('handle', 'st!=NULL', 1); chk('StateInit of NULL', init(opts()).replace('&st', 'NULL', 1), 'TA_BAD_PARAM')
        one = [x + '[0]' for x in ins()]
        chk('step of NULL', 'TA_%s_State(%s)' % (N, ', '.join(['NULL'] + one + outs())), 'TA_BAD_PARAM'); chk('step', 'TA_%s_State(%s)' % (N, ', '.join(['st'] + one + outs())), 'TA_SUCCESS')
        for i in range(len(U)): chk('step without ' + U[i][1], 'TA_%s_State(%s)' % (N, ', '.join(['st'] + one + outs(i))), 'TA_BAD_PARAM')
        for i in range(len(A)): chk('block without ' + A[i][1], 'TA_%s_BatchState(%s)' % (N, ', '.join(['st', '0', 'N-1'] + ins('D', i) + ['&b', '&n'] + outs())), 'TA_BAD_PARAM')
        for i in range(len(U)): chk('block without ' + U[i][1], 'TA_%s_BatchState(%s)' % (N, ', '.join(['st', '0', 'N-1'] + ins() + ['&b', '&n'] + outs(i))), 'TA_BAD_PARAM')
        chk('block', 'TA_%s_BatchState(%s)' % (N, ', '.join(['st', '2', 'N-1'] + ins() + ['&b', '&n'] + outs())), 'TA_SUCCESS'); chk('block outBegIdx', 'b', 2); chk('block outNBElement', 'n', 'N-2'); chk('block of NULL', 'TA_%s_BatchState(%s)' % (N, ', '.join(['NULL', '2', 'N-1'] + ins() + ['&b', '&n'] + outs())), 'TA_BAD_PARAM')
        for i, (t, n) in enumerate(d['struct']): w.append('  st->%s=%s;' % (n, '%d' % (70 + i) if t == 'Integer' else '%r' % (i + 3.25)))
        w.append('  {char*buf=NULL;size_t len=0;FILE*m=open_memstream(&buf,&len);'); chk('save', 'TA_%s_StateSave(st,m)' % N, 'TA_SUCCESS'); w.append('  fclose(m);m=fmemopen(buf,len,"rb");'); chk('load', 'TA_%s_StateLoad(&s2,m)' % N, 'TA_SUCCESS'); chk('bytes read', 'ftell(m)', 'len'); chk('loaded', 's2!=NULL', 1)
        w.append('  fclose(m);m=fmemopen(buf,len-1,"rb");{%s*s3=NULL;' % S); chk('cut load', 'TA_%s_StateLoad(&s3,m)' % N, 'TA_IO_FAILED'); w.append('  if(s3)TA_%s_StateFree(&s3);}fclose(m);free(buf);' % N)
        for n in ['mem_index', 'mem_size'] + [o[1] for o in O] + [n for t, n in d['struct']]: chk('loaded ' + n, 's2?s2->%s:0' % n, 'st->%s' % n)
        w.append('  }'); chk('free', 'TA_%s_StateFree(&st)' % N, 'TA_SUCCESS'); chk('freed handle', 'st!=NULL', 0); w.append('  if(s2)TA_%s_StateFree(&s2);}' % N)
        w.append('  {const TA_FuncHandle*h=NULL;const TA_FuncInfo*fi=NULL;TA_ParamHolder*p=NULL;const TA_InputParameterInfo*ii;const TA_OptInputParameterInfo*oo;const TA_OutputParameterInfo*uu;')
        chk('handle', 'TA_GetFuncHandle("%s",&h)' % N, 0); chk('info', 'TA_GetFuncInfo(h,&fi)', 0); chk('inputs', 'fi->nbInput', len(d['in'])); chk('opts', 'fi->nbOptInput', len(O)); chk('outputs', 'fi->nbOutput', len(U)); chk('camel', 'strcmp(fi->camelCaseName,"%s")' % d['camel'], 0); chk('hint', 'strcmp(fi->hint,"%s")' % d['hint'], 0)
        chk('alloc', 'TA_ParamHolderAlloc(h,&p)', 0); k = 0
        for i, (t, n, m) in enumerate(d['in']):
            if t == 'price':
                q = []
                for b in range(6):
                    if m >> b & 1: q.append('D[%d]' % k); k += 1
                    else: q.append('NULL')
                chk('set ' + n, 'TA_SetInputParamPricePtr(p,%d,%s)' % (i, ','.join(q)), 0)
            elif t == 'real': chk('set ' + n, 'TA_SetInputParamRealPtr(p,%d,D[%d])' % (i, k), 0); k += 1
            else: chk('set ' + n, 'TA_SetInputParamIntegerPtr(p,%d,I[%d])' % (i, k), 0); k += 1
        for j, o in enumerate(O): chk('set ' + o[1], 'TA_SetOptInputParam%s(p,%d,%s)' % ('Real' if o[0] == 'real' else 'Integer', j, lit(o, mid(o))), 0)
        for i, (t, n) in enumerate(U): chk('set ' + n, 'TA_SetOutputParam%sPtr(p,%d,(void*)%s[%d])' % ('Integer' if t == 'int' else 'Real', i, 'oi' if t == 'int' else 'od', i), 0)
        w.append('  b=n=-9;{int l=-9;'); chk('abstract lookback', 'TA_GetLookback(p,&l)', 0); chk('abstract lookback value', 'l', 0); w.append('  }'); chk('abstract call', 'TA_CallFunc(p,0,N-1,&b,&n)', 0); chk('abstract count', 'n', 0)
        chk('abstract init', 'TA_InitNewState(p)', 0); chk('abstract step', 'TA_CallFuncState(p)', 0); chk('abstract free', 'TA_FreeState(p)', 0); chk('holder free', 'TA_ParamHolderFree(p)', 0); w.append('  }')
        s.append('static void t_%s(void){int b=-9,n=-9;\n%s\n}' % (N, '\n'.join(w)))
    s.append('int c24_extra(void){prep();%sreturn %d;}' % (''.join('t_%s();' % d['name'] for d in ds), len(ds)))
    return '\n'.join(s) + '\n'
def add(tree, k):
    """puts new functions into the tables that have none; returns their definitions"""
    import glob, re
    R = random.Random(k * 31 + 5); ds = []
    for p in sorted(glob.glob(tree + '/c/src/ta_abstract/tables/table_?.c')):
        with open(p, newline='', errors='surrogateescape') as f: t = f.read()
        L = p[-3].upper()
        m = re.search(r'(TA_DEF_Table%s\[\]\s*=\s*\{)(\s*NULL\s*\};)' % L, t)
        if not m: continue
        d = define('%sADDED%d' % (L, k % 7 + 1), R); ds.append(d)
        t = t[:m.start(1)] + '@@' + t[m.start(1):m.end(1)] + '\n   ADD_TO_TABLE(%s),' % d['name'] + t[m.start(2):]
        i = t.rindex('const TA_FuncDef', 0, t.index('@@')); t = t[:i] + table(d) + t[i:]; t = t.replace('@@', '')
        with open(p, 'w', newline='', errors='surrogateescape') as f: f.write(t)
    return ds
if __name__ == '__main__':
    import sys
    ds = add(sys.argv[1], int(sys.argv[2])); print(test(ds, int(sys.argv[3])))
