#!/usr/bin/env python3
"""Generates src/glue.c (committed): one descriptor + typed thunks per indicator.
Run once, by hand, on the reviewed baseline: the ranges, defaults and types baked
into the table are the specification the monitors use, NOT re-read from /repo at
check time."""
import re,sys,xml.etree.ElementTree as ET
root=sys.argv[1] if len(sys.argv)>1 else '/repo/ta-lib-rt'
t=open(root+'/c/include/ta_func.h').read()
fs={}
for m in re.finditer(r'TA_LIB_API\s+(TA_RetCode|int)\s+TA_(\w+)\s*\(([^;]*?)\)\s*;',t):
    fs[m.group(2)]=re.sub(r'\s+',' ',re.sub(r'/\*.*?\*/','',m.group(3))).strip()
names=sorted(n[:-9] for n in fs if n.endswith('_Lookback'))
xml={g.findtext('Abbreviation'):g for g in ET.parse(root+'/ta_func_api.xml').getroot()}
KIND={'inOpen':'O','inHigh':'H','inLow':'L','inClose':'C','inVolume':'V','inPeriods':'p','inReal':'r','inReal0':'r','inReal1':'s'}
out=[]
w=out.append
w('/* Generated by tools/gen_glue.py from the reviewed baseline API. Do not edit. */')
w('#include "glue.h"\n#include "ta_libc.h"\n#include "ta_func.h"')
tab=[]
for n in names:
    args=[a.strip() for a in fs[n].split(',')]
    ins=[];opts=[];outs=[]
    for a in args:
        m=re.match(r'^(.*?)(\w+)(\[\])?$',a); ty,nm,arr=m.group(1).strip(),m.group(2),m.group(3)
        if nm in('startIdx','endIdx','outBegIdx','outNBElement'): continue
        if nm.startswith('in') : assert ty=='const double' and arr,a; ins.append(nm)
        elif nm.startswith('optIn'): opts.append((ty,nm))
        else: assert arr,a; outs.append((ty,nm))
    g=xml[n]
    fn=[f for f in g.find('Functions') if f.findtext('Name')=='TA_'+n][0]
    xo=fn.find('OptionalInputArguments'); xo=list(xo) if xo is not None else []
    assert len(xo)==len(opts),n
    flags=[f.text for f in (g.find('Flags') if g.find('Flags') is not None else [])]
    od=[]
    for (ty,nm),x in zip(opts,xo):
        xt=x.findtext('Type'); d=x.findtext('DefaultValue')
        if xt=='MA Type': od.append((2,0,9,float(d),nm))
        else:
            lo,hi=float(x.find('Range').findtext('Minimum')),float(x.find('Range').findtext('Maximum'))
            assert (xt=='Integer')==(ty=='int')
            od.append((1 if ty=='int' else 0,lo,hi,float(d),nm))
    def oargs(): return [('(%s)o[%d]'%(ty,i) if ty=='int' else '(%s)(int)o[%d]'%(ty,i)) if ty!='double' else 'o[%d]'%i for i,(ty,nm) in enumerate(opts)]
    lb=oargs()
    w('/* %s */'%n)
    w('static int %s_lb(const double*o){(void)o;return TA_%s_Lookback(%s);}'%(n,n,','.join(lb)))
    outp=['(%s*)out[%d]'%(ty,i) for i,(ty,nm) in enumerate(outs)]
    for pre,ct in(('','double'),('S_','float')):
        w('static int %s_b%s(int s,int e,const %s*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_%s%s(%s);}'%(n,'f' if pre else 'd',ct,pre,n,','.join(['s','e']+['in[%d]'%i for i in range(len(ins))]+oargs()+['b','n']+outp)))
    w('static int %s_si(void**st,const double*o){(void)o;return (int)TA_%s_StateInit(%s);}'%(n,n,','.join(['(struct TA_%s_State**)st'%n]+oargs())))
    w('static int %s_ss(void*st,const double*in,void*const*out){return (int)TA_%s_State(%s);}'%(n,n,','.join(['(struct TA_%s_State*)st'%n]+['in[%d]'%i for i in range(len(ins))]+outp)))
    w('static int %s_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_%s_BatchState(%s);}'%(n,n,','.join(['(struct TA_%s_State*)st'%n,'s','e']+['in[%d]'%i for i in range(len(ins))]+['b','n']+outp)))
    w('static int %s_sf(void**st){return (int)TA_%s_StateFree((struct TA_%s_State**)st);}'%(n,n,n))
    w('static int %s_sv(void*st,FILE*f){return (int)TA_%s_StateSave((struct TA_%s_State*)st,f);}'%(n,n,n))
    w('static int %s_sl(void**st,FILE*f){return (int)TA_%s_StateLoad((struct TA_%s_State**)st,f);}'%(n,n,n))
    ods=','.join('{%d,%r,%r,%r,"%s"}'%o for o in od)
    ots=','.join('%d'%(1 if ty=='int' else 0) for ty,nm in outs)
    ons=','.join('"%s"'%nm for ty,nm in outs)
    fl=[]
    if 'Candlestick' in flags: fl.append('FL_CDL')
    if 'Unstable Period' in flags: fl.append('FL_UNST')
    if 'Overlap' in flags: fl.append('FL_OVER')
    tab.append('{"%s","%s","%s","%s",%d,"%s",%d,{%s},%d,{%s},{%s},%s,%s_lb,%s_bd,%s_bf,%s_si,%s_ss,%s_sb,%s_sf,%s_sv,%s_sl}'%(n,g.findtext('CamelCaseName'),g.findtext('GroupId'),g.findtext('ShortDescription'),len(ins),''.join(KIND[i] for i in ins),len(od),ods or '{0,0,0,0,0}',len(outs),ots,ons,'|'.join(fl) or '0',*[n]*9))
w('const Fn FNS[]={\n%s\n};\nconst int NFN=%d;'%(',\n'.join(tab),len(tab)))
open(sys.argv[2] if len(sys.argv)>2 else '/verif/src/glue.c','w').write('\n'.join(out)+'\n')
