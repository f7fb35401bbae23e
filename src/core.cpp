#include "core.h"
#include <time.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <assert.h>
#ifdef HAVE_MSAN
#include <sanitizer/msan_interface.h>
#endif
Opts OPT; long g_curcase=-1; const char*g_curfn=""; long g_nviol=0; bool g_guard_bad=false;
static VMap<double> STATS; static const Globals*G_CUR=nullptr;
static VMap<int> VCOUNT;
static std::unordered_set<uint64_t> SEEN;
static int nsamples=0;
struct Prog{char fn[48];long cs;char step[64];};
static Prog*PROG=nullptr;
void prog(const char*fn,long cs,const char*step){
  g_curfn=fn;g_curcase=cs;
  if(!PROG)return; snprintf(PROG->fn,48,"%s",fn);PROG->cs=cs;snprintf(PROG->step,64,"%s",step);}
static std::string esc(const char*s){std::string r;for(;*s;s++){unsigned char c=*s;if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c<32){r+=' ';}else r+=c;}return r;}
void violate(const char*fn,const char*kind,const char*fmt,...){
  char b[1600];va_list a;va_start(a,fmt);
#ifdef HAVE_MSAN   /* reporting must not itself trip over values the library left uninitialised */
  {__msan_scoped_disable_interceptor_checks();int m=vsnprintf(b,sizeof b,fmt,a);(void)m;__msan_unpoison(b,sizeof b);__msan_scoped_enable_interceptor_checks();va_end(a);
   g_nviol++;if(g_nviol>20)return;for(char*q=b;*q;q++)if(*q=='"'||*q=='\\'||(unsigned char)*q<32)*q=' ';
   printf("V {\"fn\":\"%s\",\"kind\":\"%s\",\"case\":%ld,\"detail\":\"%s\"}\n",fn,kind,g_curcase,b);fflush(stdout);return;}
#else
  vsnprintf(b,sizeof b,fmt,a);va_end(a);
  if(G_CUR){std::string g=G_CUR->str();size_t l=strlen(b);if(!strstr(b,g.c_str()))snprintf(b+l,sizeof b-l," settings: %s",g.c_str());}
#endif
  g_nviol++;std::string k=std::string(fn)+":"+kind;
  if(++VCOUNT[k]>2)return;
  printf("V {\"fn\":\"%s\",\"kind\":\"%s\",\"case\":%ld,\"detail\":\"%s\"}\n",esc(fn).c_str(),esc(kind).c_str(),g_curcase,esc(b).c_str());fflush(stdout);
}
void stat_add(const char*k,double v){STATS[k]+=v;}
void stat_max(const char*k,double v){char kk[64];snprintf(kk,64,"max_%s",k);double*q=STATS.get(kk);if(!q||*q<v)STATS[(const char*)kk]=v;}
void sample(const char*fmt,...){ if(nsamples>=4)return; char b[900];va_list a;va_start(a,fmt);vsnprintf(b,sizeof b,fmt,a);va_end(a);
  nsamples++;printf("SAMPLE %s\n",b);}
void inconclusive(const char*fmt,...){char b[900];va_list a;va_start(a,fmt);vsnprintf(b,sizeof b,fmt,a);va_end(a);STATS["inconclusive"]+=1;printf("I %s\n",b);}
void seen(uint64_t h,bool nt){STATS["evaluations"]+=1;if(nt&&SEEN.insert(h).second)STATS["distinct_nontrivial"]+=1;}
VMap<PropFn>&props(){static VMap<PropFn>m;return m;}
PropReg::PropReg(const char*id,PropFn f){props()[id]=f;}
const Fn*find_fn(const char*n){for(int i=0;i<NFN;i++)if(!strcmp(FNS[i].name,n))return &FNS[i];fprintf(stderr,"no fn %s\n",n);exit(3);}
void init_lib(){int r=TA_Initialize();if(r){fprintf(stderr,"init %d\n",r);exit(3);}}

/* ---- series ---- */
static double q(double v,int g){return g==GRID_DYADIC?floor(v*64+0.5)/64:g==GRID_CENT?floor(v*100+0.5)/100:v;}
static const char*TAGS[NKIND]={"walk","const","up","down","alt","spikes","flatbars","candles","zerovol","steps","tiny","large","cycle"};
void gen_series(Rng&R,int n,Series&S,int grid,int kind){
  if(grid<0)grid=R.in(0,2);
  if(kind<0){kind=R.in(0,NKIND+3);if(kind>=NKIND)kind=(kind&1)?0:7;}
  S=Series();S.n=n;S.kind=kind;S.tag=TAGS[kind];
  S.O.resize(n);S.H.resize(n);S.L.resize(n);S.C.resize(n);S.V.resize(n);S.r.resize(n);S.s.resize(n);S.p.resize(n);
  double base=R.d(20,300),vol=base*R.d(0.003,0.03),x=base;
  static const double bodies[]={0,0.03,0.25,0.5,1,1.5,2.5,4},shad[]={0,0,0.02,0.1,0.3,1,2.5};
  double unit=fmax(base*0.01,0.5);int cyc=R.in(6,45);double ph=R.d(0,6.28);
  for(int i=0;i<n;i++){
    double o,c,h,l,prevc=i?S.C[i-1]:base,prevo=i?S.O[i-1]:base;
    double v=floor(R.d(1,1e5));
    switch(kind){
    case 1:o=c=h=l=base;break;
    case 2:o=base+i*unit*0.25;c=o+unit*0.2;h=c+unit*0.1;l=o-unit*0.1;break;
    case 3:o=base+(n-i)*unit*0.25;c=o-unit*0.2;h=o+unit*0.1;l=c-unit*0.1;break;
    case 4:o=base+((i&1)?unit:-unit);c=base+((i&1)?-unit:unit);h=fmax(o,c)+unit*0.5;l=fmin(o,c)-unit*0.5;break;
    case 5:x+=vol*R.g();if(x<base*0.2)x=base;o=x;c=x+vol*0.3*R.g();if(R.p(0.05))c=x*R.d(1.2,3);if(R.p(0.05))o=x*R.d(0.4,0.8);h=fmax(o,c)+vol*R.d();l=fmin(o,c)-vol*R.d();break;
    case 6:if(R.p(0.5))x+=vol*R.g();if(x<base*0.2)x=base;o=h=l=c=x;break;
    case 7:{int rel=R.in(0,7);double b=bodies[R.in(0,7)]*unit*(R.p(0.5)?1:-1);
      switch(rel){case 0:o=prevc;break;case 1:o=prevc+unit*0.3;break;case 2:o=prevc-unit*0.3;break;case 3:o=(prevc+prevo)/2;break;case 4:o=prevo;break;case 5:o=prevc+unit*R.d(0,2);break;case 6:o=prevc-unit*R.d(0,2);break;default:o=fmax(prevc,prevo)+unit*0.2*(R.p(0.5)?1:-8);}
      if(o<base*0.3||o>base*3)o=base;c=o+b;if(R.p(0.1))c=prevc;if(c<base*0.1)c=o+fabs(b);
      h=fmax(o,c)+shad[R.in(0,6)]*unit;l=fmin(o,c)-shad[R.in(0,6)]*unit;break;}
    case 9:if(R.p(0.1))x=base*R.d(0.7,1.4);o=x;c=x;h=x+(R.p(0.3)?unit:0);l=x-(R.p(0.3)?unit:0);break;
    case 12:x=base+base*0.08*sin(ph+6.2831853*i/cyc)+vol*0.1*R.g();o=prevc;c=x;h=fmax(o,c)+vol*R.d();l=fmin(o,c)-vol*R.d();break;
    default:x+=vol*R.g();if(x<base*0.2)x=base;o=R.p(0.5)?prevc:x;c=x+vol*0.5*R.g();h=fmax(o,c)+vol*R.d();l=fmin(o,c)-vol*R.d();}
    if(kind==8)v=R.p(0.6)?0:v;
    o=q(o,grid);c=q(c,grid);h=q(h,grid);l=q(l,grid);
    h=fmax(h,fmax(o,c));l=fmin(l,fmin(o,c));
    if(kind==1)v=1000;
    S.O[i]=o;S.C[i]=c;S.H[i]=h;S.L[i]=l;S.V[i]=v;
  }
  int vs=R.in(0,11);if(vs<2)for(double&v:S.V)v=ldexp(v,vs?20:-6);   /* volumes beyond 2^31, and fractional ones */
  if(kind==10||kind==11){double f=kind==10?ldexp(1,-16):ldexp(1,16);for(int i=0;i<n;i++){S.O[i]*=f;S.H[i]*=f;S.L[i]*=f;S.C[i]*=f;}}
  int rm=R.in(0,5);double mx=1e-300;for(int i=0;i<n;i++)mx=fmax(mx,fabs(S.C[i]));
  for(int i=0;i<n;i++)switch(rm){
    case 0:case 1:case 2:S.r[i]=S.C[i];break;
    case 3:S.r[i]=q(S.C[i]-base,grid);break;                     /* sign changes */
    case 4:S.r[i]=S.C[i]/mx*(R.p(0.5)?1:-1);break;              /* in [-1,1] */
    default:S.r[i]=q(R.d(-10,10),grid);}
  int sm=R.in(0,3);
  for(int i=0;i<n;i++)S.s[i]=sm==0?S.r[i]:sm==1?S.O[i]:sm==2?q(R.d(-5,5),grid):q(S.r[i]*0.5+R.d(0,1),grid);
  int pm=R.in(0,3);
  for(int i=0;i<n;i++)S.p[i]=pm==0?R.in(1,45):pm==1?R.d(1,45):pm==2?(double)(2+(i/7)%25):R.in(2,12);
}
void poison_series(Rng&R,Series&S){
  static const double bad[]={NAN,INFINITY,-INFINITY,1e308,-1e308,1e-320,0.0,-0.0,3e37,-4e37,-1,5e-324,1e18};
  VD*a[]={&S.O,&S.H,&S.L,&S.C,&S.V,&S.r,&S.s,&S.p};
  double dens=R.p(0.3)?0.5:R.d(0.01,0.2);
  for(VD*v:a)for(double&x:*v)if(R.p(dens))x=bad[R.in(0,12)];
}
/* ---- params ---- */
double g_bigrate=0,g_longrate=0;
/* prices that single precision cannot hold, with exact sums and ties kept: every price times 1+j*2^-25 */
void refine(Rng&R,Series&S){double m=1+ldexp(2*R.in(0,7)+1,-25);for(VD*a:{&S.O,&S.H,&S.L,&S.C,&S.r,&S.s})for(double&v:*a)v*=m;stat_add("refined_series");}
int gen_len(Rng&R,int normal){if(g_longrate>0&&R.p(g_longrate)){int n=R.p(.02)?R.in(65530,72000):(int)(200*exp(R.d()*3.7));stat_add("long_series");stat_max("longest_series",n);return n;}return normal;}
bool g_big=false;
void limit_cost(const Fn&f,double*o){ /* windows of one long period over the lookback of another: keep the product affordable */
  int m=-1;for(int i=0;i<f.nOpt;i++)if(f.opt[i].type==1&&(m<0||o[i]>o[m]))m=i;if(m<0)return;double mp=o[m];
  for(int i=0;i<f.nOpt;i++)if(f.opt[i].type==1&&i!=m)while((o[i]+150)*mp>1e8&&o[i]>f.opt[i].min&&o[i]>2)o[i]=fmax(f.opt[i].min,floor(o[i]/4));}
void gen_opts(Rng&R,const Fn&f,double*o,int maxper,bool sentinel){
  bool big=g_bigrate>0&&R.p(g_bigrate);g_big=false;
  int mode=R.in(0,9);
  for(int i=0;i<f.nOpt;i++){const OptD&d=f.opt[i];
    if(d.type==1){
      double v; int lo=(int)d.min;
      if(mode==0)v=d.def; else if(mode==1)v=lo; else switch(R.in(0,9)){case 0:v=lo;break;case 1:v=lo+1;break;case 2:v=d.def;break;case 3:case 4:v=R.in(lo,lo+3);break;case 5:case 6:v=R.in(lo,lo+10);break;default:v=R.in(lo,maxper);}
      if(v>maxper&&v>d.def)v=maxper; if(v<d.min)v=d.min;
      if(sentinel&&R.p(0.06))v=INT_MIN;
      o[i]=v;
    }else if(d.type==2){ o[i]=mode==0?d.def:R.in(0,9); if(sentinel&&R.p(0.05))o[i]=INT_MIN;
    }else{
      double lo=fmax(d.min,-5),hi=fmin(d.max,5);
      static const double SP[]={0,1,-1,2,-2,.5,-.5,3,.01,.99};
      double v=mode==0?d.def:R.p(0.22)?d.def:R.p(0.08)?lo:R.p(0.08)?hi:R.d(lo,hi);
      if(mode>1&&R.p(.25)){double q=SP[R.in(0,9)];if(q>=lo&&q<=hi)v=q;}
      if(mode>1&&i&&f.opt[i-1].type==0&&R.p(.12)){double q=o[i-1];if(q>=lo&&q<=hi)v=q;}
      if(!strncmp(d.name,"optInAccel",10)||!strcmp(d.name,"optInMaximum"))v=mode==0?d.def:R.p(0.3)?d.def:R.p(0.1)?0:R.d(0,R.p(0.5)?0.3:1.5);
      if(sentinel&&R.p(0.06))v=-4e37;
      o[i]=v;
    }
  }
  if(big)for(int i=0;i<f.nOpt;i++){const OptD&d=f.opt[i];   /* periods over their whole documented range, log-uniform */
    if(d.type==1&&d.max>1000&&R.p(.7)){double lo=d.min<20?20:d.min;o[i]=R.p(.15)?d.max-R.in(0,3):floor(lo*exp(R.d()*log((d.max+1)/lo)));if(o[i]>d.max)o[i]=d.max;g_big=true;stat_add("large_periods");stat_max("largest_period",o[i]);}}
  if(g_big)limit_cost(f,o);
  if(is(f,"MAVP")){double r[8];resolve_opts(f,o,r);if(r[0]>r[1]){o[0]=r[1];o[1]=r[0];}}   /* minimum above maximum is rejected */
}
void resolve_opts(const Fn&f,const double*o,double*r){for(int i=0;i<f.nOpt;i++){const OptD&d=f.opt[i];r[i]=(d.type==0?o[i]==-4e37:o[i]==(double)INT_MIN)?d.def:o[i];}}
std::string opts_str(const Fn&f,const double*o){std::string s;char b[64];for(int i=0;i<f.nOpt;i++){snprintf(b,64,"%s%s=%.17g",i?",":"",f.opt[i].name,o[i]);s+=b;}return s;}
/* ---- guarded buffers ---- */
int expect_nb(int s,int e,int lb){int b=s<lb?lb:s;return b>e?0:e-b+1;}
#ifdef HAVE_ASAN
static const int G=0;
#else
static const int G=24;
#endif
static const uint64_t SENT=0x7ff4dead5a5aa5a5ULL; /* signalling-nan style marker */
struct GB{void*raw;int n;bool isint;
  GB(int n_,bool ii):n(n_),isint(ii){size_t es=ii?4:8;raw=malloc(es*(size_t)(n+2*G)+(n+2*G==0?1:0));fill();}
  void fill(){if(isint){int*p=(int*)raw;for(int i=0;i<n+2*G;i++)p[i]=(int)0x5a17dead;}else{uint64_t*p=(uint64_t*)raw;for(int i=0;i<n+2*G;i++)p[i]=SENT;}
#ifdef HAVE_MSAN
    __msan_poison(raw,(isint?4:8)*(size_t)(n+2*G));
#endif
  }
  void*ptr(){return (char*)raw+(isint?4:8)*(size_t)G;}
  bool sent(int i){ /* element i (relative to ptr) still holds the marker? */
    if(isint)return ((int*)raw)[i+G]==(int)0x5a17dead;return ((uint64_t*)raw)[i+G]==SENT;}
  bool guards(){
#ifdef HAVE_MSAN
    __msan_unpoison(raw,(isint?4:8)*(size_t)G);__msan_unpoison((char*)raw+(isint?4:8)*(size_t)(G+n),(isint?4:8)*(size_t)G);
#endif
    for(int i=-G;i<0;i++)if(!sent(i))return false;for(int i=n;i<n+G;i++)if(!sent(i))return false;return true;}
  ~GB(){free(raw);}
};
void ins_of(const Fn&f,const Series&S,std::vector<const double*>&v,int off){v.clear();for(int i=0;i<f.nIn;i++)v.push_back(S.get(f.kinds[i])+off);}
template<class CALL>static Out run_any(const Fn&f,int s,int e,const double*o,int cap,CALL call){
  Out r;int lb=f.lookback(o);
  int nb=lb<0?0:expect_nb(s,e,lb); if(cap<0)cap=nb;
  GB*g[3];void*out[3];for(int k=0;k<f.nOut;k++){g[k]=new GB(cap,f.outInt[k]);out[k]=g[k]->ptr();}
  r.rc=call(&r.b,&r.n,out);
  for(int k=0;k<f.nOut;k++){
    if(!g[k]->guards()){g_guard_bad=true;violate(f.name,"write-outside-output","s=%d e=%d lb=%d out#%d capacity=%d opts:%s",s,e,lb,k,cap,opts_str(f,o).c_str());}
    int m=r.rc==0&&r.n>0?(r.n<cap?r.n:cap):0;
#ifdef HAVE_MSAN
    if(m>0){long bad=__msan_test_shadow(out[k],(f.outInt[k]?4:8)*(size_t)m);
      if(bad>=0)violate(f.name,"uninitialised-output","s=%d e=%d out#%d first uninitialised byte %ld of %d elements opts:%s",s,e,k,bad,m,opts_str(f,o).c_str());
    }
    __msan_unpoison(out[k],(f.outInt[k]?4:8)*(size_t)cap);
#endif
    if(f.outInt[k]){r.iv[k].assign((int*)out[k],(int*)out[k]+m);}else r.v[k].assign((double*)out[k],(double*)out[k]+m);
    int lim=r.rc==0?m:0;
#ifndef HAVE_MSAN
    for(int i=lim;i<cap;i++)if(!g[k]->sent(i)){violate(f.name,"write-past-count","s=%d e=%d rc=%d nb=%d wrote out#%d[%d] opts:%s",s,e,r.rc,r.n,k,i,opts_str(f,o).c_str());break;}
    if(!f.outInt[k])for(int i=0;i<m;i++)if(g[k]->sent(i)){violate(f.name,"output-not-written","s=%d e=%d nb=%d out#%d[%d] left untouched opts:%s",s,e,r.n,k,i,opts_str(f,o).c_str());break;}
#else
    (void)lim;
#endif
    delete g[k];
  }
  return r;
}
Out run_batch(const Fn&f,int s,int e,const double*const*in,const double*o,int cap){return run_any(f,s,e,o,cap,[&](int*b,int*n,void**out){return f.batch(s,e,in,o,b,n,out);});}
Out run_float(const Fn&f,int s,int e,const float*const*in,const double*o,int cap){return run_any(f,s,e,o,cap,[&](int*b,int*n,void**out){return f.batchf(s,e,in,o,b,n,out);});}
bool float_arith(const Fn&f){   /* single-precision variants that compute in single precision */
  static const char*l[]={"ADD","SUB","MULT","DIV","AVGPRICE","MEDPRICE","TYPPRICE","WCLPRICE","MOM","BOP","CCI","MFI","ACCBANDS","NVI","PVI","PVT"};
  for(const char*x:l)if(is(f,x))return true;return false;}
Out run_form(bool fl,const Fn&f,int s,int e,const double*const*in,const double*o){
  if(!fl||float_arith(f))return run_batch(f,s,e,in,o);
  std::vector<std::vector<float>> v(f.nIn);std::vector<const float*> p;
  for(int i=0;i<f.nIn;i++){v[i].assign(in[i],in[i]+e+1);for(int j=0;j<=e;j++)if((double)v[i][j]!=in[i][j]&&in[i][j]==in[i][j])return run_batch(f,s,e,in,o);p.push_back(v[i].data());}
  stat_add("float_form_runs");return run_float(f,s,e,p.data(),o);}
Out run_state(const Fn&f,int n,const double*const*in,const double*o,VI*rcs,int*initrc){
  Out r;r.b=0;r.n=n;void*st=nullptr;int rc=f.sinit(&st,o);if(initrc)*initrc=rc;r.rc=rc;
  if(rc){if(st)f.sfree(&st);return r;}
  for(int k=0;k<f.nOut;k++){if(f.outInt[k])r.iv[k].assign(n,-99999);else r.v[k].assign(n,NAN);}
  if(rcs)rcs->assign(n,-1);
  for(int i=0;i<n;i++){double x[5];for(int j=0;j<f.nIn;j++)x[j]=in[j][i];
    double dv[3];int iv[3];void*out[3];
    for(int k=0;k<f.nOut;k++){dv[k]=NAN;iv[k]=-99999;out[k]=f.outInt[k]?(void*)&iv[k]:(void*)&dv[k];
#ifdef HAVE_MSAN
      __msan_poison(out[k],f.outInt[k]?4:8);
#endif
    }
    int c=f.sstep(st,x,out);if(rcs)(*rcs)[i]=c;
    for(int k=0;k<f.nOut;k++){
#ifdef HAVE_MSAN
      if(c==0&&__msan_test_shadow(out[k],f.outInt[k]?4:8)>=0)violate(f.name,"uninitialised-state-output","bar %d out#%d opts:%s",i,k,opts_str(f,o).c_str());
      __msan_unpoison(out[k],f.outInt[k]?4:8);
      if(c){iv[k]=-99999;dv[k]=NAN;}
#endif
      if(f.outInt[k])r.iv[k][i]=iv[k];else r.v[k][i]=dv[k];}
  }
  int fr=f.sfree(&st);if(fr)violate(f.name,"statefree-rc","StateFree returned %d",fr);
  if(st)violate(f.name,"statefree-notnull","StateFree left the pointer set");
  return r;
}
/* the deviation of a nearly constant window, %K of a nearly constant RSI: ratios or roots of rounding residues */
bool no_fine(const Fn&f){return is(f,"STOCHRSI")||is(f,"STDDEV")||is(f,"BBANDS");}
bool in_volume_units(const Fn&f){return is(f,"AD")||is(f,"ADOSC")||is(f,"OBV")||is(f,"PVT");}
double in_scale(const Fn&f,const Series&S){double m=1e-9;for(int i=0;i<f.nIn;i++){if(f.kinds[i]=='V'&&!in_volume_units(f))continue;const double*x=S.get(f.kinds[i]);for(int j=0;j<S.n;j++)if(isfinite(x[j]))m=fmax(m,fabs(x[j]));}return m;}
/* functions that decide by comparing inputs, or differences of inputs, with each other: a tie among these is no rounding accident */
static bool decides_on_inputs(const Fn&f){
  static const char*l[]={"AROON","AROONOSC","MINUS_DM","PLUS_DM","MINUS_DI","PLUS_DI","DX","ADX","ADXR","OBV","NVI","PVI","SAR","SAREXT","CMO","RSI","IMI","MIN","MAX","MINMAX","MIDPOINT","MIDPRICE","WILLR","TRANGE","ATR","NATR"};
  for(const char*x:l)if(is(f,x))return true;return false;}
/* scales every input by 1+2^-36*j when that is exact in every element: moves the roundings of the calculation, keeps the order and every tie of inputs and of their differences */
static bool tie_scale(const Fn&f,int n,const double*const*in,int j,std::vector<VD>&cp){
  for(int k=0;k<f.nIn;k++){double m=1+ldexp(f.kinds[k]=='V'?(j*5)%13+1:j,-36);cp.emplace_back(n);for(int t=0;t<n;t++){double x=in[k][t],y=x*m;if(isfinite(x)&&fma(x,m,-y)!=0)return false;cp.back()[t]=y;}}
  return true;}
/* KAMA, MAMA over a computed series: efficiency or phase may hang on the rounding of a series that is constant but for rounding, which perturbed inputs need not show in full */
static bool adaptive_on_derived(const Fn&f,const double*o){
  if(!is(f,"STOCH")&&!is(f,"STOCHF")&&!is(f,"STOCHRSI")&&!is(f,"MACDEXT"))return false;
  for(int i=0;i<f.nOpt;i++)if(f.opt[i].type==2&&(o[i]==6||o[i]==7))return true;return false;}
/* the perturbed evaluations of the last call are kept: a case judging thousands of values probes one evaluation */
double wobble(const Fn&f,int s,int e,int n,const double*const*in,const double*o,int k,int i,double eps,int reps){
  stat_add("conditioning_probes");
  static uint64_t ckey=0;static std::vector<Out>runs;static Out base;
  uint64_t key=mix64(hstr(f.name)^(uint64_t)s*7919u^(uint64_t)e*104729u);auto add=[&](uint64_t v){key=mix64(key^v);};
  add(g_curcase);add(n);add(reps);auto addd=[&](double v){uint64_t x;memcpy(&x,&v,8);add(x);};addd(eps);
  for(int j=0;j<f.nOpt;j++)addd(o[j]);for(int j=0;j<f.nIn;j++)for(int t=0;t<n;t++)addd(in[j][t]);
  for(int u=0;u<TA_FUNC_UNST_ALL;u++)add(TA_GetUnstablePeriod((TA_FuncUnstId)u));add(TA_GetCompatibility());
  if(key!=ckey||(f.flags&FL_CDL)){
    ckey=key;runs.clear();base=run_batch(f,s,e,in,o);Rng R(hstr(f.name)^(uint64_t)e);
    bool ties=decides_on_inputs(f)&&eps<1e-9;
    if(!base.rc)for(int r=0;r<reps;r++){std::vector<VD>cp;std::vector<const double*>q;
      if(ties){int j=1+r;if(tie_scale(f,n,in,j,cp)){stat_add("tie_preserving_probes");for(auto&v:cp)q.push_back(v.data());runs.push_back(run_batch(f,s,e,q.data(),o));continue;}ties=false;cp.clear();}
      double grid=ldexp(1,R.in(0,3))*R.d(1,2)*eps;
      for(int j=0;j<f.nIn;j++){cp.emplace_back(in[j],in[j]+n);double sc=0;for(double v:cp.back())if(isfinite(v))sc=fmax(sc,fabs(v));for(double&v:cp.back()){double nz=0;if((r&3)==2){if(!isfinite(v)||!(sc>0))continue;}else if(r&1){uint64_t x;memcpy(&x,&v,8);Rng Q(x^(uint64_t)r*0x9e37);nz=Q.d(-1,1);}else nz=R.d(-1,1);   /* every other run keeps equal values equal */
        if((r&3)==2)v=nearbyint(v/(grid*sc))*(grid*sc);else v+=eps*(0.5*fabs(v)+0.5*sc)*nz;}}   /* and some round to a coarser grid, which makes near ties exact */
      for(auto&v:cp)q.push_back(v.data());
      runs.push_back(run_batch(f,s,e,q.data(),o));}}
  if(base.rc||i>=base.n)return 0;double x=base.at(f,k,i),w=0;
  for(auto&b:runs){if(b.rc||i>=b.n)return INFINITY;double d=fabs(b.at(f,k,i)-x);if(!(d<=w))w=isnan(d)?INFINITY:d;}
  if(adaptive_on_derived(f,o)){double sc=fabs(x);for(int j=0;j<f.nIn;j++)for(int t=0;t<n;t++)if(isfinite(in[j][t]))sc=fmax(sc,fabs(in[j][t]));for(int t=0;t<i;t++)for(auto&b:runs)if(!b.rc&&t<b.n){double d=fabs(b.at(f,k,t)-base.at(f,k,t));if(!(d<=w))w=isnan(d)?INFINITY:d;}   /* recursive: earlier doubts last */
    if(w>1e3*eps*sc)return INFINITY;}
  return w;}
Globals::Globals(Rng&R,double pu,double pm,double pc){G_CUR=this;
  if(R.p(pu)){unst=R.in(1,R.p(0.5)?4:30);TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,unst);}
  if(R.p(pm)){meta=true;TA_SetCompatibility(TA_COMPATIBILITY_METASTOCK);}
  if(R.p(pc)){static const double fac[]={0,0.05,0.1,0.2,0.5,0.6,1,1.5,2,3};bool loose=R.p(0.6);
    for(int i=0;i<TA_AllCandleSettings;i++)if(R.p(0.6)){
      int rt=R.in(0,2),ap=R.p(0.15)?0:R.in(1,R.p(0.7)?8:18);double fc=fac[R.in(0,9)];
      if(loose)switch(i){ /* settings under which patterns fire often */
        case TA_BodyLong:case TA_BodyVeryLong:case TA_ShadowLong:case TA_ShadowVeryLong:case TA_Far:fc=R.d(0,0.5);break;
        default:fc=R.d(0.8,4);}
      TA_SetCandleSettings((TA_CandleSettingType)i,(TA_RangeType)rt,ap,fc);
      char b[64];snprintf(b,64,"%d:%d/%d/%.17g,",i,rt,ap,fc);cs+=b;}}
}
Globals::~Globals(){G_CUR=nullptr;if(unst)TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,0);if(meta)TA_SetCompatibility(TA_COMPATIBILITY_DEFAULT);if(!cs.empty())TA_RestoreCandleDefaultSettings(TA_AllCandleSettings);}
std::string Globals::str()const{char b[64];snprintf(b,64,"unstable=%d%s ",unst,meta?" metastock":"");return b+(cs.empty()?cs:"candle settings(type:range/period/factor) "+cs+" ");}
void each_case(const char*prop,long quick,const std::function<void(const Fn&,Rng&,long)>&body,const std::function<bool(const Fn&)>&filter){
  double slow=0;const char*slowf="";long slowc=0;
  long nc=OPT.cases>0?OPT.cases:(long)(quick*OPT.scale);if(nc<1)nc=1;
  for(int i=0;i<NFN;i++){const Fn&f=FNS[i];if(filter&&!filter(f))continue;
    if(!OPT.fn.empty()){if(OPT.fn!=f.name)continue;}
    if(OPT.shard==0)stat_add("functions");
    for(long c=OPT.shard;c<nc;c+=OPT.nshard){ if(OPT.only>=0){c=OPT.only;}
      uint64_t h=mix64(OPT.seed*1000003ULL+hstr(prop))^mix64(hstr(f.name)+0x51ed*(uint64_t)c);
      Rng R(h);prog(f.name,c,"case");struct timespec t0,t1;clock_gettime(CLOCK_MONOTONIC,&t0);body(f,R,c);clock_gettime(CLOCK_MONOTONIC,&t1);double ms=(t1.tv_sec-t0.tv_sec)*1e3+(t1.tv_nsec-t0.tv_nsec)/1e6;
      if(ms>slow){slow=ms;slowf=f.name;slowc=c;}
      if(OPT.only>=0)break;}
  }
  if(slow>500)fprintf(stderr,"slowest case: %s %ld, %.0f ms\n",slowf,slowc,slow);
}
int main(int ac,char**av){
  std::string progf;
  for(int i=1;i<ac;i++){std::string a=av[i];auto nx=[&]{return std::string(i+1<ac?av[++i]:"");};
    if(a=="--prop")OPT.prop=nx();else if(a=="--fn")OPT.fn=nx();else if(a=="--seed")OPT.seed=strtoull(nx().c_str(),0,10);
    else if(a=="--shard"){std::string s=nx();sscanf(s.c_str(),"%d/%d",&OPT.shard,&OPT.nshard);}
    else if(a=="--cases")OPT.cases=atol(nx().c_str());else if(a=="--case")OPT.only=atol(nx().c_str());
    else if(a=="--tier")OPT.tier=nx();else if(a=="--scale")OPT.scale=atof(nx().c_str());else if(a=="--prog")progf=nx();else if(a=="--sub")OPT.sub=nx();else if(a=="--tmp")OPT.tmp=nx();
    else{fprintf(stderr,"bad arg %s\n",a.c_str());return 3;}}
  if(!progf.empty()){int fd=open(progf.c_str(),O_RDWR|O_CREAT,0600);if(fd>=0&&ftruncate(fd,sizeof(Prog))==0)PROG=(Prog*)mmap(0,sizeof(Prog),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);if(PROG==MAP_FAILED)PROG=nullptr;}
  if(!props().count(OPT.prop)){fprintf(stderr,"unknown property %s\n",OPT.prop.c_str());return 3;}
  setvbuf(stdout,0,_IOLBF,0);
  init_lib();
  props()[OPT.prop]();
  TA_Shutdown();
  for(auto&k:STATS)printf("S %s %.17g\n",k.first.c_str(),k.second);
  printf("DONE %ld\n",g_nviol);
  return 0;
}
