/* C01..C05: batch-call properties. */
#include "core.h"
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#endif
static uint64_t hcase(const Fn&f,const double*o,int s,int e,const Series&S){uint64_t h=hstr(f.name);for(int i=0;i<f.nOpt;i++){uint64_t x;memcpy(&x,&o[i],8);h=mix64(h^x);}h=mix64(h^(uint64_t)s*7919u^(uint64_t)e*104729u);for(int i=0;i<f.nIn&&S.n;i++){uint64_t x;memcpy(&x,&S.get(f.kinds[i])[S.n-1],8);h=mix64(h^x);}return h;}
uint64_t case_hash(const Fn&f,const double*o,int s,int e,const Series&S){return hcase(f,o,s,e,S);}
/* pick N and a range, biased towards the boundaries around the lookback */
static void pick(Rng&R,int lb,int&n,int&s,int&e){
  switch(R.in(0,7)){
   case 0:n=R.in(1,lb+2);break; case 1:n=lb+1;break; case 2:n=lb+2;break; case 3:n=lb+R.in(1,5);break; default:n=lb+gen_len(R,R.in(1,120));}
  if(n<1)n=1;
  switch(R.in(0,6)){case 0:s=0;e=n-1;break;case 1:s=R.in(0,n-1);e=s;break;case 2:s=lb<n?lb:n-1;e=n-1;break;case 3:e=R.in(0,n-1);s=R.in(0,e);break;case 4:s=lb+1<n?lb+1:0;e=R.in(s,n-1);break;default:s=R.in(0,n-1);e=R.in(s,n-1);}
}
/* ------------------------------------------------------------------ C02 */
PROPERTY(C02){
  g_bigrate=0.0005;g_longrate=.001;
  each_case("C02",260,[](const Fn&f,Rng&R,long){
    Globals G(R,.15,.1,f.flags&FL_CDL?.4:0);double o[8];gen_opts(R,f,o);int lb=f.lookback(o);
    if(lb<0){violate(f.name,"lookback-negative","lookback=%d for valid opts:%s",lb,opts_str(f,o).c_str());return;}
    int n,s,e;pick(R,lb,n,s,e);Series S;gen_series(R,n,S);std::vector<const double*>in;ins_of(f,S,in);
    int nb=expect_nb(s,e,lb);
    seen(hcase(f,o,s,e,S),nb>0);
    std::vector<float> fl[5];std::vector<const float*>fin;
    for(int i=0;i<f.nIn;i++){fl[i].assign(in[i],in[i]+n);fin.push_back(fl[i].data());}
    for(int v=0;v<2;v++){
    Out r=v?run_float(f,s,e,fin.data(),o,e-s+1):run_batch(f,s,e,in.data(),o,e-s+1);
    const char*w=v?"float":"double";
    if(r.rc){violate(f.name,"rc","%s rc=%d s=%d e=%d lb=%d opts:%s",w,r.rc,s,e,lb,opts_str(f,o).c_str());return;}
    if(r.n!=nb)violate(f.name,"count","%s outNBElement=%d expected %d (s=%d e=%d lookback=%d begIdx=%d) opts:%s",w,r.n,nb,s,e,lb,r.b,opts_str(f,o).c_str());
    int eb=nb?(s<lb?lb:s):0;
    if(r.b!=eb)violate(f.name,"begidx","%s outBegIdx=%d expected %d (s=%d e=%d lookback=%d) opts:%s",w,r.b,eb,s,e,lb,opts_str(f,o).c_str());
    if(nb)stat_add("outputs",nb);
    }
    if(nb&&R.p(0.002))sample("%s(%d,%d,...) opts:%s -> lookback %d begIdx %d nb %d",f.name,s,e,opts_str(f,o).c_str(),lb,s<lb?lb:s,nb);
  });
}
/* ------------------------------------------------------------------ C03 */
/* functions whose output carries an accumulator or recursion seeded at the first
   evaluated bar: only window-translation and prefix relations apply to them */
static bool ma_recursive(double t){int m=(int)t;return !(m==0||m==2||m==5);}
static bool recursive(const Fn&f,const double*o){
  static const char*rec[]={"AD","ADOSC","ADX","ADXR","ATR","CMO","DEMA","DX","EMA","HT_DCPERIOD","HT_DCPHASE","HT_PHASOR","HT_SINE","HT_TRENDLINE","HT_TRENDMODE","KAMA","MACD","MACDFIX","MAMA","MINUS_DI","MINUS_DM","NATR","NVI","OBV","PLUS_DI","PLUS_DM","PVI","PVT","RSI","SAR","SAREXT","STOCHRSI","T3","TEMA","TRIX","WLMA"};
  for(const char*x:rec)if(is(f,x))return true;
  for(int i=0;i<f.nOpt;i++)if(f.opt[i].type==2){double d=o[i]==(double)INT_MIN?f.opt[i].def:o[i];if(ma_recursive(d))return true;}
  return false;
}
/* BETA and CORREL divide by variances of their window kept as running sums: when one is negligible next
   to the rounding of what went through the sum, the quotient is noise */
bool var_degenerate(const Fn&f,const double*o,const double*const*in,int n,int bar){
  bool be=is(f,"BETA");if(!be&&!is(f,"CORREL"))return false;double r[8];resolve_opts(f,o,r);int p=(int)r[0];
  for(int w=0;w<(be?1:2);w++){const double*x=in[w];double mean=0,ss=0,mx=0;VD v;
    for(int j=be?1:0;j<n;j++){double q=be?(x[j-1]!=0?(x[j]-x[j-1])/x[j-1]:0):x[j];if(isfinite(q))mx=fmax(mx,fabs(q));if(j>bar-p&&j<=bar)v.push_back(q);}
    for(double q:v)mean+=q/v.size();for(double q:v)ss+=(q-mean)*(q-mean);
    if(!(ss>=1e-6*fmax(mx*mx,1e-12)))return true;}
  return false;}
struct Ctx{const double*const*in;int n,s,e;};   /* evaluation that produced side a: used for value lookups and the conditioning guard */
static bool cmp_slice(const Fn&f,const char*kind,const Out&a,int ia,const Out&b,int ib,int cnt,double sc,const double*o,const Ctx&x,int dshift,const char*tag){
  for(int k=0;k<f.nOut;k++)for(int i=0;i<cnt;i++){
    double u=a.at(f,k,ia+i),v=b.at(f,k,ib+i);bool ok;
    if(idx_output(f)){ /* equal extremes may be reported at any of their positions */
      int p=(int)u,q=(int)v+dshift;ok=p>=0&&q>=0&&p<x.n&&q<x.n&&x.in[0][p]==x.in[0][q];}
    else if(f.outInt[k])ok=u==v; else ok=close(u,v,1e-7,1e-9*sc);
    if(!ok){double d=fabs(u-v);if(var_degenerate(f,o,x.in,x.n,x.s+i)){stat_add("ill_conditioned");continue;}
      if(!idx_output(f)&&ia+i<a.n){double w=wobble(f,x.s,x.e,x.n,x.in,o,k,ia+i,1e-12);if(f.outInt[k]?w>0:d<=1000*w||w>1e-3*sc){stat_add("ill_conditioned");continue;}}
      violate(f.name,kind,"out#%d idx %d: %.17g vs %.17g (s=%d e=%d) opts:%s data:%s",k,i,u,v,x.s,x.e,opts_str(f,o).c_str(),tag);return false;}
  }
  return true;
}
PROPERTY(C03){
  g_bigrate=0.0005;g_longrate=.001;
  each_case("C03",160,[](const Fn&f,Rng&R,long){
    Globals G(R,.15,0,f.flags&FL_CDL?.4:0);double o[8];gen_opts(R,f,o);int lb=f.lookback(o);if(lb<0)return;
    int n=lb+gen_len(R,R.in(3,90));Series S;gen_series(R,n,S,GRID_DYADIC);std::vector<const double*>in;ins_of(f,S,in);
    bool ff=R.p(.2);double sc=in_scale(f,S);sc=fmax(sc,1);
    int s=R.p(0.2)?lb:R.in(lb,n-1),e=R.in(s,n-1);
    seen(hcase(f,o,s,e,S),true);
    Out full=run_form(ff,f,s,e,in.data(),o);if(full.rc){violate(f.name,"rc","rc=%d",full.rc);return;}
    if(full.n!=e-s+1||full.b!=s){stat_add("skipped_count_mismatch");return;}
    /* (a) causality: a longer range produces the same prefix, and data after endIdx is irrelevant */
    {int e2=R.in(s,e);Series T=S;VD*a[]={&T.O,&T.H,&T.L,&T.C,&T.V,&T.r,&T.s,&T.p};for(VD*v:a)for(int i=e2+1;i<n;i++)(*v)[i]=(float)R.d(1,500);
     std::vector<const double*>in2;ins_of(f,T,in2);Out p=run_form(ff,f,s,e2,in2.data(),o);
     if(p.rc||p.n!=e2-s+1)violate(f.name,"prefix-count","rc=%d n=%d expected %d",p.rc,p.n,e2-s+1);else cmp_slice(f,"future-dependence",p,0,full,0,p.n,sc,o,Ctx{in2.data(),n,s,e2},0,S.tag);stat_add("prefix_checks");}
    /* (b) locality: bars older than startIdx-lookback are irrelevant, absolute position is irrelevant */
    {int w=s-lb;Series T=S;VD*a[]={&T.O,&T.H,&T.L,&T.C,&T.V,&T.r,&T.s,&T.p};for(VD*v:a)for(int i=0;i<w;i++)(*v)[i]=R.p(0.3)?NAN:(float)R.d(1,500);
     std::vector<const double*>in2;ins_of(f,T,in2);Out p=run_form(ff,f,s,e,in2.data(),o);
     if(p.rc||p.n!=e-s+1)violate(f.name,"old-data-count","rc=%d n=%d",p.rc,p.n);else cmp_slice(f,"old-data-dependence",p,0,full,0,p.n,sc,o,Ctx{in.data(),n,s,e},0,S.tag);
     if(w>0)stat_add("oldbar_checks");
     std::vector<const double*>in3;ins_of(f,S,in3,w);Out t=run_form(ff,f,lb,e-w,in3.data(),o);
     if(t.rc||t.n!=e-s+1)violate(f.name,"shift-count","rc=%d n=%d",t.rc,t.n);else cmp_slice(f,"position-dependence",full,0,t,0,t.n,sc,o,Ctx{in.data(),n,s,e},w,S.tag);
     stat_add("shift_checks");}
    /* (c) non-recursive functions: any sub-range agrees with the full-range evaluation */
    if(!recursive(f,o)){Out a=run_form(ff,f,0,n-1,in.data(),o);if(a.rc||a.n!=n-lb){violate(f.name,"full-count","n=%d",a.n);return;}
      cmp_slice(f,"subrange",full,0,a,s-lb,full.n,sc,o,Ctx{in.data(),n,s,e},0,S.tag);stat_add("subrange_checks");}
    /* (d) startIdx below the lookback is the same as startIdx == lookback */
    /* (a recursion may legitimately be seeded elsewhere when startIdx differs, so only without one) */
    if(!recursive(f,o)||R.p(0)){Out a=run_form(ff,f,lb,e,in.data(),o),b=run_form(ff,f,R.in(0,lb),e,in.data(),o);
     if(b.rc||b.n!=a.n||b.b!=a.b)violate(f.name,"start-clamp","rc=%d n=%d/%d beg=%d/%d",b.rc,b.n,a.n,b.b,a.b);else cmp_slice(f,"start-clamp",b,0,a,0,a.n,sc,o,Ctx{in.data(),n,lb,e},0,S.tag);}
    if(R.p(0.002))sample("%s range [%d,%d] of %d bars (%s), lookback %d, opts:%s",f.name,s,e,n,S.tag,lb,opts_str(f,o).c_str());
  });
}
/* ------------------------------------------------------------------ C04 */
PROPERTY(C04){
  g_bigrate=0.0005;g_longrate=.001;
  each_case("C04",200,[](const Fn&f,Rng&R,long c){
    Globals G(R,.15,.1,f.flags&FL_CDL?.4:0);double o[8];gen_opts(R,f,o);int lb=f.lookback(o);if(lb<0)return;
    int n=lb+gen_len(R,R.in(1,100));int s=R.p(0.4)?0:R.in(0,n-1),e=R.in(s,n-1);
    Series S;gen_series(R,n,S);std::vector<const double*>in;ins_of(f,S,in);
    Out ref=run_batch(f,s,e,in.data(),o);
    std::vector<VD> cp;for(int i=0;i<f.nIn;i++)cp.emplace_back(in[i],in[i]+n);
    /* assign to every real output a distinct input buffer (or none) */
    int al[3]={-1,-1,-1};bool any=false;std::vector<int> perm;for(int i=0;i<f.nIn;i++)perm.push_back(i);
    for(int i=(int)perm.size()-1;i>0;i--)std::swap(perm[i],perm[R.in(0,i)]);
    size_t pi=0;std::vector<int> outs;for(int k=0;k<f.nOut;k++)if(!f.outInt[k])outs.push_back(k);
    if(outs.empty())return;
    for(int i=(int)outs.size()-1;i>0;i--)std::swap(outs[i],outs[R.in(0,i)]);
    for(int k:outs){if(pi<perm.size()&&(pi==0||R.p(0.6))){al[k]=perm[pi++];any=true;}}
    if(!any)return;
    VD sep[3];VI isep[3];void*out[3];std::vector<const double*>in2;for(auto&v:cp)in2.push_back(v.data());
    for(int k=0;k<f.nOut;k++){if(al[k]>=0)out[k]=cp[al[k]].data();else if(f.outInt[k]){isep[k].assign(n,7);out[k]=isep[k].data();}else{sep[k].assign(n,7);out[k]=sep[k].data();}}
    int b=-1,nb=-1;int rc=f.batch(s,e,in2.data(),o,&b,&nb,out);
    seen(hcase(f,o,s,e,S),ref.n>0);
    if(rc!=ref.rc||b!=ref.b||nb!=ref.n){violate(f.name,"inplace-rc","rc=%d/%d beg=%d/%d nb=%d/%d s=%d e=%d alias=%d,%d,%d opts:%s",rc,ref.rc,b,ref.b,nb,ref.n,s,e,al[0],al[1],al[2],opts_str(f,o).c_str());return;}
    double sc=fmax(1,in_scale(f,S));
    for(int k=0;k<f.nOut;k++)for(int i=0;i<nb;i++){
      double x=f.outInt[k]?(double)((int*)out[k])[i]:((double*)out[k])[i],y=ref.at(f,k,i);
      if(!close(x,y,1e-9,1e-12*sc)){violate(f.name,"inplace-value","output#%d aliased to input#%d (aliases %d,%d,%d): [%d] %.17g vs separate buffer %.17g s=%d e=%d opts:%s data:%s",k,al[k],al[0],al[1],al[2],i,x,y,s,e,opts_str(f,o).c_str(),S.tag);k=3;break;}}
    stat_add("aliased_outputs",(al[0]>=0)+(al[1]>=0)+(al[2]>=0));
    if(R.p(0.002))sample("%s(%d,%d) outputs on inputs %d,%d,%d opts:%s",f.name,s,e,al[0],al[1],al[2],opts_str(f,o).c_str());
  });
}
/* ------------------------------------------------------------------ C05 */
PROPERTY(C05){
  g_bigrate=0.001;g_longrate=.001;
  each_case("C05",260,[](const Fn&f,Rng&R,long c){
    Globals G(R,.15,.1,f.flags&FL_CDL?.4:0);double o[8];gen_opts(R,f,o);int lb=f.lookback(o);if(lb<0)return;
    int n,s,e;pick(R,lb,n,s,e);Series S;gen_series(R,n,S,f.flags&FL_CDL?GRID_DYADIC:-1);   /* a pattern is decided by exact comparisons: keep single-precision arithmetic exact */
    std::vector<std::vector<float>> fl;std::vector<VD> db;std::vector<const float*>fi;std::vector<const double*>di;
    for(int i=0;i<f.nIn;i++){const double*x=S.get(f.kinds[i]);fl.emplace_back(x,x+n);VD d(n);for(int j=0;j<n;j++)d[j]=(double)fl.back()[j];db.push_back(d);}
    for(int i=0;i<f.nIn;i++){fi.push_back(fl[i].data());di.push_back(db[i].data());}
    Out a=run_batch(f,s,e,di.data(),o),b=run_float(f,s,e,fi.data(),o);
    seen(hcase(f,o,s,e,S),a.n>0);
    if(a.rc!=b.rc||a.b!=b.b||a.n!=b.n){violate(f.name,"float-range","double rc=%d beg=%d nb=%d float rc=%d beg=%d nb=%d s=%d e=%d opts:%s",a.rc,a.b,a.n,b.rc,b.b,b.n,s,e,opts_str(f,o).c_str());return;}
    double sc=fmax(1,in_scale(f,S));
    for(int k=0;k<f.nOut;k++)for(int i=0;i<a.n;i++){double x=a.at(f,k,i),y=b.at(f,k,i);
      if(idx_output(f)?!(x==y):!close(x,y,1e-9,1e-12*sc)){
        /* single-precision intermediate arithmetic is part of some float variants: allow what rounding the inputs to float could cause */
        double w=wobble(f,s,e,n,di.data(),o,k,i,float_arith(f)||f.outInt[k]?2.4e-7:1e-12,32);
        if(f.outInt[k]?w>0:fabs(x-y)<=(float_arith(f)?40:1000)*w){stat_add("float_rounding_allowed");continue;}
        violate(f.name,"float-value","out#%d[%d] double-input %.17g float-input %.17g s=%d e=%d opts:%s data:%s",k,i,x,y,s,e,opts_str(f,o).c_str(),S.tag);k=3;break;}}
    stat_add("outputs",a.n);
    if(R.p(0.002))sample("%s(%d,%d) %d outputs equal, opts:%s data:%s",f.name,s,e,a.n,opts_str(f,o).c_str(),S.tag);
  });
}
/* ------------------------------------------------------------------ C01 */
template<class T>struct Exact{T*p;int n;Exact(const double*x,int n_):n(n_){p=(T*)malloc(sizeof(T)*n+(n==0));for(int i=0;i<n;i++)p[i]=(T)x[i];}~Exact(){
#ifdef HAVE_ASAN
  __asan_unpoison_memory_region(p,sizeof(T)*n);
#endif
  free(p);}
  void poison_prefix(int k){
#ifdef HAVE_ASAN
   if(k>0)__asan_poison_memory_region(p,sizeof(T)*k);
#endif
  }};
PROPERTY(C01){
  g_bigrate=.0006;g_longrate=.001;
  each_case("C01",240,[](const Fn&f,Rng&R,long c){
    Globals G(R,.15,.1,f.flags&FL_CDL?.4:0);double o[8];
    gen_opts(R,f,o,40);
    if(R.p(0.08))for(int i=0;i<f.nOpt;i++){ /* extreme legal values */
      const OptD&d=f.opt[i]; if(R.p(0.4))o[i]=d.type==1?(R.p(0.5)?d.max:R.in(100,3000)):R.p(0.5)?d.max:d.min; }
    limit_cost(f,o);
    int lb=f.lookback(o);if(lb<0)return;
    int n,s,e;if(lb>20000&&!g_big){n=R.in(1,300);e=R.in(0,n-1);s=R.in(0,e);}else pick(R,lb,n,s,e);
    n=e+1;                       /* inputs end exactly at endIdx */
    Series S;gen_series(R,n,S);bool poisoned=R.p(0.3);if(poisoned)poison_series(R,S);
    int w=s-lb;if(w<0)w=0;
    seen(hcase(f,o,s,e,S),expect_nb(s,e,lb)>0);stat_add(poisoned?"hostile_values":"finite_values");
    {std::vector<Exact<double>*>v;std::vector<const double*>in;for(int i=0;i<f.nIn;i++){v.push_back(new Exact<double>(S.get(f.kinds[i]),n));v.back()->poison_prefix(G.meta?0:w);in.push_back(v.back()->p);}
     prog(f.name,g_curcase,"batch double");run_batch(f,s,e,in.data(),o);
     if(R.p(0.5)){prog(f.name,g_curcase,"batch double wide cap");run_batch(f,s,e,in.data(),o,e-s+1);}
     for(auto x:v)delete x;}
    {std::vector<Exact<float>*>v;std::vector<const float*>in;for(int i=0;i<f.nIn;i++){v.push_back(new Exact<float>(S.get(f.kinds[i]),n));v.back()->poison_prefix(G.meta?0:w);in.push_back(v.back()->p);}
     prog(f.name,g_curcase,"batch float");run_float(f,s,e,in.data(),o);for(auto x:v)delete x;}
    if(w>0)stat_add("poisoned_prefix_runs");
    /* streaming on the same data */
    std::vector<const double*>in;ins_of(f,S,in);prog(f.name,g_curcase,"streaming");VI rcs;if(lb<=20000||g_big){run_state(f,n,in.data(),o,&rcs);stat_add("stream_steps",n);}
    /* in-place */
    {std::vector<Exact<double>*>v;std::vector<const double*>ii;for(int i=0;i<f.nIn;i++){v.push_back(new Exact<double>(S.get(f.kinds[i]),n));ii.push_back(v.back()->p);}
     void*out[3];std::vector<int>ib[3];std::vector<double>dbuf[3];int used=0;for(int k=0;k<f.nOut;k++){if(f.outInt[k]){ib[k].resize(n);out[k]=ib[k].data();}else if(used<f.nIn)out[k]=v[used++]->p;else{dbuf[k].resize(n);out[k]=dbuf[k].data();}}
     int b,nb;prog(f.name,g_curcase,"in-place");f.batch(s,e,ii.data(),o,&b,&nb,out);for(auto x:v)delete x;}
    if(R.p(0.002))sample("%s(%d,%d) n=%d lookback=%d window starts at %d, %s, opts:%s",f.name,s,e,n,lb,w,poisoned?"NaN/Inf/huge data":S.tag,opts_str(f,o).c_str());
  });
}
