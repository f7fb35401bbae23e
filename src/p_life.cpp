/* C10 threads, C11 allocation faults and leaks, C12 parameter validation, C22 purity */
#include "core.h"
#include "ta_abstract.h"
#include <pthread.h>
#include <signal.h>
#include <setjmp.h>
#include <atomic>
#include <thread>
#include <unordered_map>
uint64_t case_hash(const Fn&f,const double*o,int s,int e,const Series&S);
/* ---------------- allocator shim (linked with --wrap): only active on a thread that armed it ---------------- */
extern "C"{void*__real_malloc(size_t);void*__real_calloc(size_t,size_t);void*__real_realloc(void*,size_t);void __real_free(void*);}
struct Shim{bool on=false;long count=0,failat=-1;int fill=-1;long failed=0;std::unordered_map<void*,size_t>*live=nullptr;long badfree=0;};
static thread_local Shim SH;
static bool shim_fail(){SH.count++;if(SH.failat>0&&SH.count==SH.failat){SH.failed++;return true;}return false;}
static void*note(void*p,size_t n){if(p&&SH.live){SH.on=false;(*SH.live)[p]=n;SH.on=true;}return p;}
extern "C" void*__wrap_malloc(size_t n){if(!SH.on)return __real_malloc(n);if(shim_fail())return nullptr;void*p=__real_malloc(n);if(p&&SH.fill>=0)memset(p,SH.fill,n);return note(p,n);}
extern "C" void*__wrap_calloc(size_t a,size_t b){if(!SH.on)return __real_calloc(a,b);if(shim_fail())return nullptr;return note(__real_calloc(a,b),a*b);}
extern "C" void*__wrap_realloc(void*p,size_t n){if(!SH.on)return __real_realloc(p,n);if(shim_fail())return nullptr;SH.on=false;if(SH.live)SH.live->erase(p);SH.on=true;return note(__real_realloc(p,n),n);}
extern "C" void __wrap_free(void*p){if(SH.on&&p&&SH.live){SH.on=false;if(!SH.live->erase(p))SH.badfree++;SH.on=true;}
  if(SH.on&&p&&SH.fill>=0&&SH.live){}
  __real_free(p);}
struct Armed{std::unordered_map<void*,size_t>m;Armed(long failat=-1,int fill=-1){SH=Shim();SH.failat=failat;SH.fill=fill;SH.live=&m;SH.on=true;}
  long stop(){SH.on=false;return SH.count;}
  ~Armed(){SH.on=false;SH.live=nullptr;for(auto&x:m)__real_free(x.first);}};
#if !defined(HAVE_ASAN)&&!defined(HAVE_TSAN)&&!defined(HAVE_MSAN)
#define CATCH_SEGV 1
static sigjmp_buf JB;static void onsegv(int){siglongjmp(JB,1);}
#endif
/* runs body; true if it crashed */
template<class B>static bool guarded(B body){
#ifdef CATCH_SEGV
  struct sigaction sa,old;memset(&sa,0,sizeof sa);sa.sa_handler=onsegv;sa.sa_flags=SA_NODEFER;sigaction(SIGSEGV,&sa,&old);bool crash=false;
  if(sigsetjmp(JB,1)==0)body();else crash=true;
  SH.on=false;sigaction(SIGSEGV,&old,nullptr);return crash;
#else
  body();return false;
#endif
}
/* ------------------------------------------------------------------ C11 */
static void c11_fn(const Fn&f,Rng&R){
  double o[8];gen_opts(R,f,o,20);int lb=f.lookback(o);if(lb<0||lb>3000)return;
  int n=lb+R.in(1,30);Series S;gen_series(R,n,S);std::vector<const double*>in;ins_of(f,S,in);std::vector<std::vector<float>>fl;std::vector<const float*>fin;for(int i=0;i<f.nIn;i++){fl.emplace_back(in[i],in[i]+n);}for(auto&v:fl)fin.push_back(v.data());
  VD dv[3];VI iv[3];void*out[3];for(int k=0;k<f.nOut;k++){if(f.outInt[k]){iv[k].assign(n,0);out[k]=iv[k].data();}else{dv[k].assign(n,0);out[k]=dv[k].data();}}
  seen(case_hash(f,o,0,n-1,S),true);
  /* ---- batch, double and float: every allocation fails in turn ---- */
  for(int v=0;v<2;v++){ const char*w=v?"float batch":"batch";prog(f.name,g_curcase,w);
    bool alias=R.p(0.3);std::vector<VD>cp;std::vector<const double*>in2=in;if(alias&&!v){for(int j=0;j<f.nIn;j++){cp.emplace_back(in[j],in[j]+n);}for(int j=0;j<f.nIn;j++)in2[j]=cp[j].data();}
    auto outs=[&](void**oo){int al=0;for(int k=0;k<f.nOut;k++){oo[k]=out[k];if(alias&&!v&&!f.outInt[k]&&al<f.nIn)oo[k]=cp[al++].data();}};
    for(long fail=0;;fail++){int b=-9,nb=-9,rc=-1;void*oo[3];if(alias&&!v)for(int j=0;j<f.nIn;j++)memcpy(cp[j].data(),in[j],n*sizeof(double));outs(oo);
      long cnt,left,bad,failed;bool crash;
      {Armed A(fail>0?fail:-1);crash=guarded([&]{rc=v?f.batchf(0,n-1,fin.data(),o,&b,&nb,oo):f.batch(0,n-1,in2.data(),o,&b,&nb,oo);});cnt=A.stop();left=A.m.size();bad=SH.badfree;failed=SH.failed;if(crash)A.m.clear();}
      if(crash){violate(f.name,"alloc-failure-crash","%s crashes when allocation %ld fails opts:%s",w,fail,opts_str(f,o).c_str());break;}
      if(left||bad)violate(f.name,"leak","%s leaves %ld blocks allocated, frees %ld foreign blocks (failing allocation %ld, rc=%d) opts:%s",w,left,bad,fail,rc,opts_str(f,o).c_str());
      if(fail==0){if(rc)violate(f.name,"rc","%s rc=%d",w,rc);stat_add("clean_calls");}
      else if(failed){stat_add("failed_allocations");if(rc!=TA_ALLOC_ERR)violate(f.name,"alloc-failure-rc","%s rc=%d (not TA_ALLOC_ERR) when allocation %ld fails opts:%s",w,rc,fail,opts_str(f,o).c_str());}
      if(fail>0&&!failed)break;if(fail>200)break;
    }}
  /* ---- streaming: init / steps / save / load / free, every allocation failing in turn ---- */
  int lbn=R.p(0.5)?lb+3:R.in(0,lb+3);if(lbn>n)lbn=n;
  auto life=[&](long fail,int&rcInit,int&rcStep,std::string*bytes){
    void*st=nullptr;rcInit=f.sinit(&st,o);rcStep=0;
    if(rcInit==0){for(int i=0;i<lbn;i++){double x[5];for(int j=0;j<f.nIn;j++)x[j]=in[j][i];int rc=f.sstep(st,x,out);if(rc&&rc!=17){rcStep=rc;break;}}}
    if(rcInit==0||st){ if(rcInit==0&&bytes&&rcStep==0){SH.on=false;char*buf=nullptr;size_t len=0;FILE*m=open_memstream(&buf,&len);SH.on=true;f.ssave(st,m);SH.on=false;fclose(m);bytes->assign(buf,len);free(buf);SH.on=true;}
      f.sfree(&st);}
    if(st)rcStep=-77;};
  std::string bytes;
  for(long fail=0;;fail++){int ri=-1,rs=-1;long left,bad,failed;bool crash;prog(f.name,g_curcase,"stream life");
    {Armed A(fail>0?fail:-1);crash=guarded([&]{life(fail,ri,rs,fail?nullptr:&bytes);});A.stop();left=A.m.size();bad=SH.badfree;failed=SH.failed;if(crash)A.m.clear();}
    if(crash){violate(f.name,"stream-alloc-crash","StateInit/State/StateFree crash when allocation %ld fails (after StateInit rc=%d) opts:%s",fail,ri,opts_str(f,o).c_str());break;}
    if(left||bad)violate(f.name,"stream-leak","StateInit..StateFree leaves %ld blocks, frees %ld foreign blocks (failing allocation %ld, init rc=%d) opts:%s",left,bad,fail,ri,opts_str(f,o).c_str());
    if(rs==-77)violate(f.name,"free-notnull","StateFree leaves the handle set");
    if(fail==0){if(ri||rs)violate(f.name,"rc","init rc=%d step rc=%d",ri,rs);stat_add("clean_streams");}
    else if(failed){stat_add("failed_allocations");if(ri!=TA_ALLOC_ERR&&rs!=TA_ALLOC_ERR)violate(f.name,"stream-alloc-rc","StateInit rc=%d, State rc=%d: no TA_ALLOC_ERR although allocation %ld failed opts:%s",ri,rs,fail,opts_str(f,o).c_str());}
    if(fail>0&&!failed)break;if(fail>200)break;}
  if(bytes.empty())return;
  for(long fail=0;;fail++){int rl=-1;long left,bad,failed;bool crash;prog(f.name,g_curcase,"load");FILE*F=fmemopen(&bytes[0],bytes.size(),"rb");setvbuf(F,nullptr,_IONBF,0);bool notnull=false;
    {Armed A(fail>0?fail:-1);crash=guarded([&]{void*c=nullptr;rl=f.sload(&c,F);if(c)f.sfree(&c);notnull=c;});A.stop();left=A.m.size();bad=SH.badfree;failed=SH.failed;if(crash)A.m.clear();}
    fclose(F);
    if(crash){violate(f.name,"load-alloc-crash","StateLoad/StateFree crash when allocation %ld fails opts:%s",fail,opts_str(f,o).c_str());break;}
    if(left||bad||notnull)violate(f.name,"load-leak","StateLoad+StateFree leaves %ld blocks, frees %ld foreign blocks (failing allocation %ld, rc=%d) opts:%s",left,bad,fail,rl,opts_str(f,o).c_str());
    if(fail==0){if(rl)violate(f.name,"rc","load rc=%d",rl);stat_add("clean_loads");}
    else if(failed){stat_add("failed_allocations");if(rl!=TA_ALLOC_ERR)violate(f.name,"load-alloc-rc","StateLoad rc=%d (not TA_ALLOC_ERR) although allocation %ld failed opts:%s",rl,fail,opts_str(f,o).c_str());}
    if(fail>0&&!failed)break;if(fail>200)break;}
  if(R.p(0.02))sample("%s: every allocation of a %d-bar batch call, a stream and a reload failed in turn, opts:%s",f.name,n,opts_str(f,o).c_str());
}
PROPERTY(C11){
  each_case("C11",20,[](const Fn&f,Rng&R,long){c11_fn(f,R);
    /* freeing twice / freeing nothing */
    void*st=nullptr;bool crash=guarded([&]{int a=f.sfree(&st);int b=f.sfree(nullptr);if(a!=0)violate(f.name,"free-null","StateFree of a NULL handle rc=%d",a);if(b!=TA_BAD_PARAM)violate(f.name,"free-nullptr","StateFree(NULL) rc=%d",b);});
    if(crash)violate(f.name,"free-null-crash","StateFree of a NULL handle crashes");stat_add("null_frees",2);
    /* the abstract interface */
    const TA_FuncHandle*h=nullptr;
    for(long fail=0;fail<40;fail++){int rc=-1;long left,bad,failed;bool crash;prog(f.name,g_curcase,"param holder");
      {Armed A(fail>0?fail:-1);crash=guarded([&]{TA_ParamHolder*p=nullptr;rc=TA_GetFuncHandle(f.name,&h);if(!rc)rc=TA_ParamHolderAlloc(h,&p);if(!rc)TA_ParamHolderFree(p);});A.stop();left=A.m.size();bad=SH.badfree;failed=SH.failed;if(crash)A.m.clear();}
      if(crash){violate(f.name,"abstract-alloc-crash","TA_ParamHolderAlloc crashes when allocation %ld fails",fail);break;}
      if(left||bad)violate(f.name,"abstract-leak","TA_ParamHolderAlloc/Free leaves %ld blocks (failing allocation %ld)",left,fail);
      if(fail==0&&rc)violate(f.name,"rc","TA_ParamHolderAlloc rc=%d",rc);
      if(fail>0&&failed){stat_add("failed_allocations");if(rc!=TA_ALLOC_ERR)violate(f.name,"abstract-alloc-rc","TA_ParamHolderAlloc rc=%d when allocation %ld fails",rc,fail);}
      if(fail>0&&!failed)break;}
  });
  if(OPT.shard==0&&OPT.fn.empty()){ prog("-",-4,"tables");g_curcase=-4;
    TA_StringTable*g=nullptr;TA_GroupTableAlloc(&g);std::vector<std::string>groups;for(unsigned i=0;i<g->size;i++)groups.push_back(g->string[i]);TA_GroupTableFree(g);
    for(int which=-1;which<(int)groups.size();which++)for(long fail=0;fail<10;fail++){int rc=-1;long left,bad,failed;bool crash;
      {Armed A(fail>0?fail:-1);crash=guarded([&]{TA_StringTable*t=nullptr;if(which<0){rc=TA_GroupTableAlloc(&t);if(!rc)TA_GroupTableFree(t);}else{rc=TA_FuncTableAlloc(groups[which].c_str(),&t);if(!rc)TA_FuncTableFree(t);}});A.stop();left=A.m.size();bad=SH.badfree;failed=SH.failed;if(crash)A.m.clear();}
      if(crash){violate("-","table-alloc-crash","table %d crashes when allocation %ld fails",which,fail);break;}
      if(left||bad)violate("-","table-leak","table %d leaves %ld blocks (failing allocation %ld)",which,left,fail);
      if(fail>0&&failed){stat_add("failed_allocations");if(rc!=TA_ALLOC_ERR)violate("-","table-alloc-rc","table %d rc=%d when allocation %ld fails",which,rc,fail);}
      if(fail>0&&!failed)break;}
    long left;{Armed A;for(int i=0;i<50;i++){TA_Initialize();TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,3);TA_Shutdown();TA_Initialize();}A.stop();left=A.m.size();}
    if(left)violate("-","init-leak","TA_Initialize/TA_Shutdown leaves %ld blocks",left);}
}
/* ------------------------------------------------------------------ C10 */
#include "absu.h"
#include <sched.h>
struct Task{const Fn*f;int kind;double o[8];int s,e,n,cut;uint64_t seed;Series S;std::vector<std::vector<float>>fl;int yieldEvery=0;};
static const char*TK[]={"batch","float","lookback","stream","stream+save/load","stream in blocks","abstract call","abstract stream","tables","metadata"};
static void add(std::string&r,const void*p,size_t n){r.append((const char*)p,n);}
static void addi(std::string&r,int v){add(r,&v,4);}
static inline void maybe_yield(const Task&t,int i){if(t.yieldEvery&&i%t.yieldEvery==0)sched_yield();}
static void foreach_cb(const TA_FuncInfo*fi,void*op){uint64_t*h=(uint64_t*)op;*h=mix64(*h^hstr(fi->name)^fi->flags);}
/* executes the task and records everything it returned; touches no harness globals */
static std::string exec_task(const Task&t){
  std::string r;const Fn&f=*t.f;std::vector<const double*>in;ins_of(f,t.S,in);
  int n=t.n;VD dv[3];VI iv[3];void*out[3];for(int k=0;k<f.nOut;k++){if(f.outInt[k]){iv[k].assign(n+1,-5);out[k]=iv[k].data();}else{dv[k].assign(n+1,-5);out[k]=dv[k].data();}}
  auto dump=[&](int m){for(int k=0;k<f.nOut;k++){if(f.outInt[k])add(r,out[k],4*(size_t)m);else for(int i=0;i<m;i++){double d=((double*)out[k])[i];if(isnan(d))d=NAN;add(r,&d,8);}}};
  auto one=[&](void*st,int i){double x[5];for(int j=0;j<f.nIn;j++)x[j]=in[j][i];void*oo[3];for(int k=0;k<f.nOut;k++)oo[k]=f.outInt[k]?(void*)(iv[k].data()+i):(void*)(dv[k].data()+i);addi(r,f.sstep(st,x,oo));};
  int b=-1,nb=-1;
  switch(t.kind){
  case 0:addi(r,f.batch(t.s,t.e,in.data(),t.o,&b,&nb,out));addi(r,b);addi(r,nb);dump(nb>0?nb:0);break;
  case 1:{std::vector<const float*>q;for(auto&v:t.fl)q.push_back(v.data());addi(r,f.batchf(t.s,t.e,q.data(),t.o,&b,&nb,out));addi(r,b);addi(r,nb);dump(nb>0?nb:0);break;}
  case 2:for(int i=0;i<20;i++)addi(r,f.lookback(t.o));break;
  case 3:{void*st=nullptr;addi(r,f.sinit(&st,t.o));if(!st)break;for(int i=0;i<n;i++){one(st,i);maybe_yield(t,i);}addi(r,f.sfree(&st));dump(n);break;}
  case 4:{void*st=nullptr;addi(r,f.sinit(&st,t.o));if(!st)break;for(int i=0;i<t.cut;i++)one(st,i);
    char*buf=nullptr;size_t len=0;FILE*m=open_memstream(&buf,&len);addi(r,f.ssave(st,m));fclose(m);addi(r,f.sfree(&st));addi(r,(int)len);
    FILE*g=fmemopen(buf,len,"rb");st=nullptr;addi(r,f.sload(&st,g));fclose(g);free(buf);if(!st)break;
    for(int i=t.cut;i<n;i++){one(st,i);maybe_yield(t,i);}addi(r,f.sfree(&st));dump(n);break;}
  case 5:{void*st=nullptr;addi(r,f.sinit(&st,t.o));if(!st)break;int i=0;Rng R(t.seed);while(i<n){int m=R.in(1,1+n/4);if(i+m>n)m=n-i;void*oo[3];for(int k=0;k<f.nOut;k++)oo[k]=f.outInt[k]?(void*)(iv[k].data()+i):(void*)(dv[k].data()+i);
      addi(r,f.sbatch(st,i,i+m-1,in.data(),&b,&nb,oo));addi(r,b);addi(r,nb);i+=m;maybe_yield(t,1);}addi(r,f.sfree(&st));dump(n);break;}
  case 6:{AbsHold A(f);addi(r,A.rc);if(!A.p)break;A.setIns(in.data());A.setOpts(t.o);A.setOuts(out);int lb=-1;addi(r,TA_GetLookback(A.p,&lb));addi(r,lb);addi(r,TA_CallFunc(A.p,t.s,t.e,&b,&nb));addi(r,b);addi(r,nb);addi(r,A.rc);dump(nb>0?nb:0);break;}
  case 7:{AbsHold A(f);addi(r,A.rc);if(!A.p)break;A.setOpts(t.o);addi(r,TA_InitNewState(A.p));double x[5];const double*px[5];for(int j=0;j<f.nIn;j++)px[j]=&x[j];A.setIns(px);
    for(int i=0;i<n;i++){for(int j=0;j<f.nIn;j++)x[j]=in[j][i];for(int k=0;k<f.nOut;k++)A.setOut(k,f.outInt[k]?(void*)(iv[k].data()+i):(void*)(dv[k].data()+i));addi(r,TA_CallFuncState(A.p));maybe_yield(t,i);}
    addi(r,TA_FreeState(A.p));addi(r,A.rc);dump(n);break;}
  case 8:{TA_StringTable*g=nullptr;addi(r,TA_GroupTableAlloc(&g));if(!g)break;uint64_t h=0;for(unsigned i=0;i<g->size;i++){TA_StringTable*q=nullptr;addi(r,TA_FuncTableAlloc(g->string[i],&q));if(q){for(unsigned j=0;j<q->size;j++)h=mix64(h^hstr(q->string[j]));TA_FuncTableFree(q);}}
    TA_GroupTableFree(g);TA_ForEachFunc(foreach_cb,&h);add(r,&h,8);break;}
  default:{const TA_FuncHandle*h=nullptr;const TA_FuncInfo*fi=nullptr;addi(r,TA_GetFuncHandle(f.name,&h));addi(r,TA_GetFuncInfo(h,&fi));uint64_t x=hstr(fi->camelCaseName)^hstr(fi->hint);
    for(unsigned j=0;j<fi->nbOptInput;j++){const TA_OptInputParameterInfo*oi=nullptr;addi(r,TA_GetOptInputParameterInfo(h,j,&oi));x=mix64(x^hstr(oi->paramName));}
    TA_RetCodeInfo ri;TA_SetRetCodeInfo((TA_RetCode)(t.seed%20),&ri);x^=hstr(ri.enumStr)^hstr(ri.infoStr);x^=hstr(TA_FunctionDescriptionXML())^hstr(TA_GetVersionString());addi(r,(int)TA_GetUnstablePeriod((TA_FuncUnstId)(t.seed%20)));addi(r,TA_GetCompatibility());add(r,&x,8);}
  }
  return r;
}
static bool make_task(Rng&R,const Fn&f,int kind,Task&t){
  t.f=&f;t.kind=kind;bool wide=g_longrate>0&&R.p(.08);gen_opts(R,f,t.o,wide?400:25);limit_cost(f,t.o);int lb=f.lookback(t.o);if(lb<0||lb>(wide?3000:600))return false;
  t.n=lb+gen_len(R,R.in(2,40));gen_series(R,t.n,t.S);t.e=R.in(0,t.n-1);t.s=R.in(0,t.e);if(R.p(0.7)){t.e=t.n-1;t.s=R.p(0.5)?0:R.in(0,t.n-1);}
  t.cut=R.in(0,t.n);t.seed=R.u();t.yieldEvery=R.p(0.5)?R.in(1,9):0;
  if(kind==1){std::vector<const double*>in;ins_of(f,t.S,in);for(int j=0;j<f.nIn;j++)t.fl.emplace_back(in[j],in[j]+t.n);}
  return true;}
static void c10_threads(const Fn&f,Rng&R){Globals G(R,.15,.1,.15);
  int T=R.in(2,4);std::vector<std::vector<Task>>ts(T);int total=0;uint64_t sig=0;
  for(int i=0;i<T;i++){int m=R.in(2,5);for(int j=0;j<m;j++){Task t;bool own=R.p(0.65);const Fn&g=own?f:FNS[R.in(0,NFN-1)];int k=R.in(0,own?7:9);if(!make_task(R,g,k,t))continue;sig=mix64(sig^hstr(g.name)^k);ts[i].push_back(std::move(t));total++;}}
  if(!total)return;
  /* one shared read-only data set: some tasks of different threads use the very same arrays and parameters */
  if(R.p(0.4)&&!ts[0].empty())for(int i=1;i<T;i++)ts[i].push_back(ts[0][0]);
  std::vector<std::vector<std::string>>exp(T),got(T);
  for(int i=0;i<T;i++)for(auto&t:ts[i])exp[i].push_back(exec_task(t));
  int rounds=2;
  for(int r=0;r<rounds;r++){
    for(auto&g:got)g.clear();
    pthread_barrier_t bar;pthread_barrier_init(&bar,nullptr,T);
    {std::vector<std::thread>th;for(int i=0;i<T;i++)th.emplace_back([&,i]{pthread_barrier_wait(&bar);for(auto&t:ts[i])got[i].push_back(exec_task(t));});for(auto&x:th)x.join();}
    pthread_barrier_destroy(&bar);
    for(int i=0;i<T;i++)for(size_t j=0;j<ts[i].size();j++){stat_add("concurrent_tasks");if(got[i][j]!=exp[i][j]){Task&t=ts[i][j];violate(f.name,"concurrent-result","thread %d of %d: %s of %s (n=%d s=%d e=%d) differs from its single-threaded result opts:%s",i,T,TK[t.kind],t.f->name,t.n,t.s,t.e,opts_str(*t.f,t.o).c_str());}}
  }
  stat_add("thread_groups");seen(sig^R.u(),true);
  if(R.p(0.02))sample("%d threads around %s ran %d tasks (batch, float, streams, save/load, abstract, tables) twice after a barrier; all equal to their serial results",T,f.name,total);
}
static void c10_interleave(const Fn&f,Rng&R){Globals G(R,.15,.1,.15);
  struct St{Task t;void*st=nullptr;int i=0;std::string got,exp;};std::vector<St>v;int K=R.in(2,6);
  for(int k=0;k<K;k++){St x;const Fn&g=R.p(0.6)?f:FNS[R.in(0,NFN-1)];if(!make_task(R,g,3,x.t))continue;v.push_back(std::move(x));}
  if(v.size()<2)return;
  auto step=[&](St&x,std::string&r){const Fn&g=*x.t.f;double d[5],dv[3]={0,0,0};int iv[3]={0,0,0};void*out[3];for(int j=0;j<g.nIn;j++)d[j]=x.t.S.get(g.kinds[j])[x.i];for(int k=0;k<g.nOut;k++)out[k]=g.outInt[k]?(void*)&iv[k]:(void*)&dv[k];
    int rc=g.sstep(x.st,d,out);addi(r,rc);if(!rc)for(int k=0;k<g.nOut;k++){if(g.outInt[k])addi(r,iv[k]);else{double q=dv[k];if(isnan(q))q=NAN;add(r,&q,8);}}x.i++;};
  for(auto&x:v){if(x.t.f->sinit(&x.st,x.t.o))return;for(x.i=0;x.i<x.t.n;)step(x,x.exp);x.t.f->sfree(&x.st);x.i=0;}
  uint64_t sched=0;long switches=0;int last=-1;std::vector<int>order;
  std::vector<int>live;for(size_t i=0;i<v.size();i++)live.push_back((int)i);
  while(!live.empty()){int a=R.in(0,(int)live.size()-1);St&x=v[live[a]];
    if(!x.st){if(x.t.f->sinit(&x.st,x.t.o))return;}
    int burst=R.p(0.7)?1:R.in(1,6);
    if(R.p(0.08)){Task q;const Fn&g=R.p(0.5)?f:FNS[R.in(0,NFN-1)];if(make_task(R,g,R.in(0,7),q)){exec_task(q);stat_add("interleaved_other_calls");}}
    for(int b=0;b<burst&&x.i<x.t.n;b++)step(x,x.got);
    if(last!=live[a]){switches++;last=live[a];}sched=mix64(sched^live[a]^burst*7);
    if(x.i>=x.t.n){x.t.f->sfree(&x.st);live.erase(live.begin()+a);}
  }
  for(auto&x:v){stat_add("interleaved_streams");if(x.got!=x.exp)violate(f.name,"interleaved-stream","stream of %s gives other outputs when its steps are interleaved with %d other streams (n=%d) opts:%s",x.t.f->name,(int)v.size()-1,x.t.n,opts_str(*x.t.f,x.t.o).c_str());}
  stat_add("stream_switches",switches);seen(sched,true);
}
PROPERTY(C10){
  each_case("C10",30,[](const Fn&f,Rng&R,long c){if(OPT.sub=="threads"||(OPT.sub.empty()&&c%2))c10_threads(f,R);else c10_interleave(f,R);});
}
/* ------------------------------------------------------------------ C12 */
static bool opt_valid(const OptD&d,double v){
  if(d.type==0){if(v==-4e37)return true;return v>=d.min&&v<=d.max;}
  if(v==(double)INT_MIN)return true;return v>=d.min&&v<=d.max;}
static double bad_opt(Rng&R,const OptD&d){
  if(d.type==0){double c[]={nextafter(d.min,-INFINITY),nextafter(d.max,INFINITY),d.min-1-fabs(d.min)*1e-3,d.max+1+fabs(d.max)*1e-3,-INFINITY,INFINITY,-5e37,5e37,-1e300,nextafter(-4e37,0),nextafter(-4e37,-INFINITY)};
    for(int i=0;i<40;i++){double v=c[R.in(0,10)];if(!opt_valid(d,v))return v;}return INFINITY;}
  double c[]={d.min-1,d.max+1,(double)INT_MAX,(double)INT_MIN+1,d.min-1-R.in(0,1000),d.max+1+R.in(0,1000),0,-1};
  for(int i=0;i<40;i++){double v=c[R.in(0,7)];if(!opt_valid(d,v))return v;}return INT_MAX;}
static double edge_opt(Rng&R,const OptD&d){   /* valid values at the very limits */
  if(d.type==0){double c[]={d.min,d.max,nextafter(d.min,INFINITY),nextafter(d.max,-INFINITY),-4e37,d.def};return c[R.in(0,5)];}
  double c[]={d.min,d.max,d.min+1,d.max-1,(double)INT_MIN,d.def};double v=c[R.in(0,5)];return opt_valid(d,v)?v:d.min;}
static bool mavp_bad(const Fn&f,const double*o){if(!is(f,"MAVP"))return false;double r[8];resolve_opts(f,o,r);return r[0]>r[1];}
struct Dest{VD d[3];VI v[3];void*p[3];const Fn&f;int n;
  Dest(const Fn&f_,int n_):f(f_),n(n_){for(int k=0;k<f.nOut;k++){if(f.outInt[k]){v[k].assign(n,0x5a17dead);p[k]=v[k].data();}else{d[k].assign(n,-1.2345e99);p[k]=d[k].data();}}}
  bool touched(){for(int k=0;k<f.nOut;k++)for(int i=0;i<n;i++)if(f.outInt[k]?v[k][i]!=0x5a17dead:d[k][i]!=-1.2345e99)return true;return false;}};
static std::string rcset(const std::vector<int>&v){std::string s;for(int x:v){char b[16];snprintf(b,16,"%d ",x);s+=b;}return s;}
static bool has(const std::vector<int>&v,int x){return std::find(v.begin(),v.end(),x)!=v.end();}
static void c12_reject(const Fn&f,Rng&R){
  Globals G(R,.3,.1,.1);double o[8];gen_opts(R,f,o,20);int lb=f.lookback(o);if(lb<0||lb>2000){violate(f.name,"lookback-valid","lookback %d for valid parameters opts:%s",lb,opts_str(f,o).c_str());return;}
  int n=lb+R.in(1,12);Series S;gen_series(R,n,S);std::vector<const double*>in;ins_of(f,S,in);std::vector<std::vector<float>>fl;for(auto p:in)fl.emplace_back(p,p+n);std::vector<const float*>fin;for(auto&v:fl)fin.push_back(v.data());
  int s=R.in(0,n-1),e=R.in(s,n-1);std::vector<int>want;std::string what;
  int nbad=R.p(0.75)?1:R.in(2,3);bool optbad=false,inbad=false,outbad=false;std::vector<const double*>in0=in;Dest D(f,n);void*op[3];for(int k=0;k<3;k++)op[k]=k<f.nOut?D.p[k]:nullptr;
  for(int b=0;b<nbad;b++){int c=R.in(0,9);char t[160];t[0]=0;
    if(c<=4&&f.nOpt){int j=R.in(0,f.nOpt-1);o[j]=bad_opt(R,f.opt[j]);optbad=true;snprintf(t,160,"%s=%.17g ",f.opt[j].name,o[j]);}
    else if(c==5||(c<=4&&b==0&&R.p(.2))){static const int neg[]={-1,-2,-1000,INT_MIN,INT_MIN+1};s=neg[R.in(0,4)];snprintf(t,160,"startIdx=%d ",s);}
    else if(c==6){static const int neg[]={-1,-2,-1000,INT_MIN};if(R.p(.5)){e=neg[R.in(0,3)];}else{s=R.in(1,n+3);e=R.in(0,s-1);}snprintf(t,160,"range %d..%d ",s,e);}
    else if(c==7||c==8){int j=R.in(0,f.nIn-1);in[j]=nullptr;fin[j]=nullptr;inbad=true;snprintf(t,160,"input %d NULL ",j);}
    else{int k=R.in(0,f.nOut-1);op[k]=nullptr;outbad=true;snprintf(t,160,"output %d NULL ",k);}
    what+=t;}
  if(mavp_bad(f,o))optbad=true;
  for(int j=0;j<f.nOpt;j++)if(!opt_valid(f.opt[j],o[j]))optbad=true;
  if(s<0)want.push_back(TA_OUT_OF_RANGE_START_INDEX);
  if(e<0||e<s)want.push_back(TA_OUT_OF_RANGE_END_INDEX);
  if(optbad||inbad||outbad)want.push_back(TA_BAD_PARAM);
  if(want.empty())return;
  seen(mix64(hstr(f.name)^hstr(what.c_str())^hstr(opts_str(f,o).c_str())),true);
  for(int v=0;v<2;v++){int b=-9,nb=-9;prog(f.name,g_curcase,v?"reject float":"reject batch");
    int rc=v?f.batchf(s,e,fin.data(),o,&b,&nb,op):f.batch(s,e,in.data(),o,&b,&nb,op);stat_add("rejected_calls");
    if(!has(want,rc))violate(f.name,v?"float-reject-rc":"reject-rc","returned %d, expected one of: %s(%s) s=%d e=%d opts:%s",rc,rcset(want).c_str(),what.c_str(),s,e,opts_str(f,o).c_str());
    if(D.touched()){violate(f.name,v?"float-reject-writes":"reject-writes","rejected call (rc=%d) wrote to an output (%s) opts:%s",rc,what.c_str(),opts_str(f,o).c_str());return;}}
  if(optbad){ /* lookback and stream initialisation refuse the same parameters */
    int l=f.lookback(o);stat_add("rejected_lookbacks");if(l!=-1)violate(f.name,"lookback-reject","lookback %d, expected -1 (%s) opts:%s",l,what.c_str(),opts_str(f,o).c_str());
    void*st=nullptr;int rc=f.sinit(&st,o);stat_add("rejected_inits");if(rc!=TA_BAD_PARAM)violate(f.name,"init-reject","StateInit returned %d (%s) opts:%s",rc,what.c_str(),opts_str(f,o).c_str());
    if(rc&&st)violate(f.name,"init-reject-handle","StateInit returned %d and set the handle (%s) opts:%s",rc,what.c_str(),opts_str(f,o).c_str());
    if(st)f.sfree(&st);
  }else{ /* streaming functions with NULL arguments; the stream goes on unharmed */
    int rc=f.sinit(nullptr,o);if(rc!=TA_BAD_PARAM)violate(f.name,"init-null","StateInit(NULL) returned %d",rc);
    double x[5];void*oo[3];Dest E(f,n);for(int k=0;k<f.nOut;k++)oo[k]=E.p[k];
    for(int j=0;j<f.nIn;j++)x[j]=in0[j][0];
    rc=f.sstep(nullptr,x,oo);if(rc!=TA_BAD_PARAM)violate(f.name,"step-null-state","_State(NULL state) returned %d",rc);
    if(E.touched())violate(f.name,"reject-writes","_State(NULL state) wrote an output");
    void*st=nullptr;rc=f.sinit(&st,o);if(rc){violate(f.name,"init-valid","StateInit rc=%d opts:%s",rc,opts_str(f,o).c_str());return;}
    int c=R.in(0,n);bool bad=false,nullout=false;std::string got;Dest F(f,n);
    for(int i=0;i<n;i++){for(int j=0;j<f.nIn;j++)x[j]=in0[j][i];for(int k=0;k<f.nOut;k++)oo[k]=f.outInt[k]?(void*)(F.v[k].data()+i):(void*)(F.d[k].data()+i);
      if(i==c&&!bad){bad=true;void*q[3];for(int k=0;k<f.nOut;k++)q[k]=oo[k];int kk=R.in(0,f.nOut-1);q[kk]=nullptr;stat_add("rejected_steps");int r1;int b=-9,nb=-9;r1=f.sbatch(nullptr,0,0,in0.data(),&b,&nb,oo);if(r1!=TA_BAD_PARAM)violate(f.name,"block-null-state","_BatchState(NULL state) returned %d",r1);
        r1=f.sbatch(st,0,0,in0.data(),&b,&nb,q);if(r1!=TA_BAD_PARAM)violate(f.name,"block-null-output","_BatchState with a NULL output returned %d",r1);
        std::vector<const double*>qi=in0;qi[R.in(0,f.nIn-1)]=nullptr;r1=f.sbatch(st,0,0,qi.data(),&b,&nb,oo);if(r1!=TA_BAD_PARAM)violate(f.name,"block-null-input","_BatchState with a NULL input returned %d",r1);}
      if(i==c&&i>=lb&&R.p(.3)){nullout=true;void*q[3];for(int k=0;k<f.nOut;k++)q[k]=oo[k];q[R.in(0,f.nOut-1)]=nullptr;stat_add("rejected_null_output_steps");prog(f.name,g_curcase,"step with a NULL output");int r1=f.sstep(st,x,q);if(r1!=TA_BAD_PARAM)violate(f.name,"step-null-output","_State with a NULL output returned %d at bar %d opts:%s",r1,i,opts_str(f,o).c_str());}
      addi(got,f.sstep(st,x,oo));}
    f.sfree(&st);if(nullout)return; /* such a step is refused, but whether it counts as a bar is not documented */
    VI rcs;Out ref=run_state(f,n,in0.data(),o,&rcs);std::string exp;for(int r:rcs)addi(exp,r);bool same=exp==got;
    for(int k=0;k<f.nOut&&same;k++)for(int i=0;i<n;i++)if(rcs[i]==0&&(f.outInt[k]?F.v[k][i]!=ref.iv[k][i]:!(same_bits(F.d[k][i],ref.v[k][i])||(isnan(F.d[k][i])&&isnan(ref.v[k][i])))))same=false;
    if(!same)violate(f.name,"reject-disturbs-stream","a refused streaming call before bar %d changes the later outputs opts:%s",c,opts_str(f,o).c_str());
  }
}
static void c12_accept(const Fn&f,Rng&R){
  Globals G(R,.3,.1,.1);double o[8],r[8];gen_opts(R,f,o,20);bool edge=R.p(.6);
  if(edge)for(int j=0;j<f.nOpt;j++)if(R.p(.6))o[j]=edge_opt(R,f.opt[j]);
  if(mavp_bad(f,o))std::swap(o[0],o[1]);if(mavp_bad(f,o))return;
  resolve_opts(f,o,r);int lb=f.lookback(o),lr=f.lookback(r);stat_add("accepted_lookbacks");
  if(lb<0)violate(f.name,"lookback-valid","lookback %d for valid parameters opts:%s",lb,opts_str(f,o).c_str());
  if(lb!=lr)violate(f.name,"default-lookback","lookback %d with default sentinels, %d with the documented defaults opts:%s",lb,lr,opts_str(f,o).c_str());
  int n=(lb<0||lb>300)?R.in(1,300):lb+R.in(1,20);Series S;gen_series(R,n,S);std::vector<const double*>in;ins_of(f,S,in);std::vector<std::vector<float>>fl;for(auto p:in)fl.emplace_back(p,p+n);std::vector<const float*>fin;for(auto&v:fl)fin.push_back(v.data());
  int s=R.p(.5)?0:R.in(0,n-1),e=R.p(.6)?n-1:R.in(s,n-1);if(R.p(.05))s=e;
  bool sent=memcmp(o,r,sizeof(double)*f.nOpt)!=0;if(sent)stat_add("sentinel_cases");
  seen(case_hash(f,o,s,e,S),true);
  auto cmp=[&](const char*w,const Out&a,const Out&b){
    if(a.rc)violate(f.name,"accept-rc","%s refused valid arguments with %d s=%d e=%d n=%d opts:%s",w,a.rc,s,e,n,opts_str(f,o).c_str());
    else if(a.rc!=b.rc||a.b!=b.b||a.n!=b.n)violate(f.name,"default-range","%s with default sentinels: rc/beg/n %d/%d/%d, with documented defaults %d/%d/%d opts:%s",w,a.rc,a.b,a.n,b.rc,b.b,b.n,opts_str(f,o).c_str());
    else for(int k=0;k<f.nOut;k++)for(int i=0;i<a.n;i++)if(f.outInt[k]?a.iv[k][i]!=b.iv[k][i]:!(same_bits(a.v[k][i],b.v[k][i])||(isnan(a.v[k][i])&&isnan(b.v[k][i])))){violate(f.name,"default-value","%s: out#%d[%d]=%.17g with default sentinels, %.17g with documented defaults opts:%s",w,k,i,a.at(f,k,i),b.at(f,k,i),opts_str(f,o).c_str());return;}};
  prog(f.name,g_curcase,"accept batch");cmp("batch",run_batch(f,s,e,in.data(),o),run_batch(f,s,e,in.data(),r));
  prog(f.name,g_curcase,"accept float");cmp("float batch",run_float(f,s,e,fin.data(),o),run_float(f,s,e,fin.data(),r));
  prog(f.name,g_curcase,"accept stream");VI c1,c2;Out a=run_state(f,n,in.data(),o,&c1),b=run_state(f,n,in.data(),r,&c2);
  if(a.rc)violate(f.name,"init-valid","StateInit refused valid parameters with %d opts:%s",a.rc,opts_str(f,o).c_str());
  if(c1!=c2)violate(f.name,"default-stream-rc","streaming return codes differ between default sentinels and documented defaults opts:%s",opts_str(f,o).c_str());
  else for(int k=0;k<f.nOut;k++)for(int i=0;i<n&&!a.rc;i++)if(c1[i]==0&&(f.outInt[k]?a.iv[k][i]!=b.iv[k][i]:!(same_bits(a.v[k][i],b.v[k][i])||(isnan(a.v[k][i])&&isnan(b.v[k][i])))))
    {violate(f.name,"default-stream-value","stream bar %d out#%d=%.17g with default sentinels, %.17g with documented defaults opts:%s",i,k,a.at(f,k,i),b.at(f,k,i),opts_str(f,o).c_str());return;}
  stat_add("accepted_calls",3);
  if(R.p(.01))sample("%s accepted opts:%s range %d..%d",f.name,opts_str(f,o).c_str(),s,e);
}
PROPERTY(C12){each_case("C12",60,[](const Fn&f,Rng&R,long c){if(c%3==0)c12_accept(f,R);else c12_reject(f,R);});}
/* ------------------------------------------------------------------ C22 */
#include <sys/mman.h>
static __attribute__((noinline)) void scribble_stack(uint64_t pat){volatile uint64_t a[3000];for(int i=0;i<3000;i++)a[i]=pat;__asm__ volatile(""::"r"(&a[0]):"memory");}
static uint64_t settings_probe(){uint64_t h=TA_GetCompatibility();for(int i=0;i<TA_FUNC_UNST_ALL;i++)h=mix64(h^TA_GetUnstablePeriod((TA_FuncUnstId)i));
  double o[8];for(int i=0;i<NFN;i++)if(FNS[i].flags&FL_CDL){for(int j=0;j<FNS[i].nOpt;j++)o[j]=FNS[i].opt[j].def;h=mix64(h^(unsigned)FNS[i].lookback(o));}
  return h;}
/* read-only arena for input arrays */
struct Arena{char*p;size_t cap,used=0;Arena(size_t c){cap=(c+8191)&~4095UL;p=(char*)mmap(0,cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);}
  void*put(const void*s,size_t n,int mis){used=((used+63)&~63UL)+mis;void*q=p+used;memcpy(q,s,n);used+=n;return q;}
  void ro(){mprotect(p,cap,PROT_READ);} ~Arena(){munmap(p,cap);}};
static void c22_case(const Fn&f,Rng&R){
  Globals G(R,.15,.1,.2);Task t;int kind=R.in(0,7);if(!make_task(R,f,kind,t))return;
  uint64_t sp=settings_probe();prog(f.name,g_curcase,TK[kind]);
  std::string base=exec_task(t);seen(mix64(hstr(base.c_str())^base.size()^hstr(f.name)^R.u()),true);stat_add("base_calls");
  /* inputs untouched */
  {Task c=t;std::string again=exec_task(c);for(char k:std::string("OHLCVrsp"))if(memcmp(c.S.get(k),t.S.get(k),t.n*sizeof(double)))violate(f.name,"input-modified","%s modified the %c input opts:%s",TK[kind],k,opts_str(f,t.o).c_str());
   if(again!=base)violate(f.name,"repeat-differs","%s repeated at once gives another result opts:%s",TK[kind],opts_str(f,t.o).c_str());}
  for(int rep=0;rep<2;rep++){
    int m=R.in(1,5);for(int i=0;i<m;i++){Task q;const Fn&g=R.p(.5)?f:FNS[R.in(0,NFN-1)];if(make_task(R,g,R.in(0,7),q)){exec_task(q);stat_add("intervening_calls");}}
    static const int fills[]={0x00,0xff,0xa5,0x7f,0x3f,0x01};int fill=fills[R.in(0,5)];std::string r;
#ifndef HAVE_MSAN
    scribble_stack(0x0101010101010101ULL*(uint64_t)fill);
    {bool ron=SH.on;(void)ron;std::string*pr=&r;SH=Shim();SH.fill=fill;SH.on=true;*pr=exec_task(t);SH.on=false;}
#else
    (void)fill;r=exec_task(t);
#endif
    stat_add("repeat_calls");
    if(r!=base){violate(f.name,"history-dependent","%s gives another result after %d other calls with memory pattern %02x (n=%d s=%d e=%d) opts:%s",TK[kind],m,fill,t.n,t.s,t.e,opts_str(f,t.o).c_str());break;}
  }
  /* the caller changes its data in place: the same addresses now hold another series, then the old one again */
  if(kind!=2){Task keep=t;exec_task(t);int how=R.in(0,2),from=how==0?0:how==1?t.n-1:R.in(0,t.n-1),to=how==0?R.in(0,t.n-1):t.n-1;Series X;gen_series(R,t.n,X);
    for(char k:std::string("OHLCVrs")){double*d=const_cast<double*>(t.S.get(k));const double*x=X.get(k);for(int i=from;i<=to;i++)d[i]=x[i];}
    if(kind==1){std::vector<const double*>in;ins_of(f,t.S,in);for(int j=0;j<f.nIn;j++)for(int i=from;i<=to;i++)t.fl[j][i]=(float)in[j][i];}
    std::string a=exec_task(t);Task c=t;exec_task(keep);std::string b=exec_task(c);exec_task(t);stat_add("in_place_updates");
    if(a!=b)violate(f.name,"stale-data","%s after bars %d..%d changed in place (n=%d s=%d e=%d) gives another result than on a fresh copy of the arrays, opts:%s",TK[kind],from,to,t.n,t.s,t.e,opts_str(f,t.o).c_str());
    for(char k:std::string("OHLCVrs"))memcpy(const_cast<double*>(t.S.get(k)),keep.S.get(k),t.n*sizeof(double));t.fl=std::vector<std::vector<float>>();t.fl=keep.fl;
    if(exec_task(t)!=base)violate(f.name,"stale-data","%s after its data were changed in place and restored gives another result, opts:%s",TK[kind],opts_str(f,t.o).c_str());}
  /* elsewhere in memory: other alignment, read-only pages */
  if(kind<=1){bool fl=kind==1;std::vector<const double*>in;ins_of(f,t.S,in);Arena A((size_t)(t.n+32)*8*6);std::vector<const double*>q;std::vector<const float*>qf;
    for(int j=0;j<f.nIn;j++){if(fl)qf.push_back((float*)A.put(t.fl[j].data(),t.n*4,4*R.in(0,15)));else q.push_back((double*)A.put(in[j],t.n*8,8*R.in(0,7)));}A.ro();
    std::string r;bool crash=guarded([&]{VD dv[3];VI iv[3];void*out[3];int off=R.in(0,3);for(int k=0;k<f.nOut;k++){if(f.outInt[k]){iv[k].assign(t.n+5,-5);out[k]=iv[k].data()+off;}else{dv[k].assign(t.n+5,-5);out[k]=dv[k].data()+off;}}
      int b=-1,nb=-1,rc=fl?f.batchf(t.s,t.e,qf.data(),t.o,&b,&nb,out):f.batch(t.s,t.e,q.data(),t.o,&b,&nb,out);addi(r,rc);addi(r,b);addi(r,nb);
      for(int k=0;k<f.nOut;k++){if(f.outInt[k])add(r,out[k],4*(size_t)(nb>0?nb:0));else for(int i=0;i<nb;i++){double d=((double*)out[k])[i];if(isnan(d))d=NAN;add(r,&d,8);}}});
    stat_add("relocated_calls");
    if(crash)violate(f.name,"input-written","%s writes to an input array (kept in read-only memory) opts:%s",TK[kind],opts_str(f,t.o).c_str());
    else if(r!=base)violate(f.name,"address-dependent","%s gives another result with arrays at other addresses opts:%s",TK[kind],opts_str(f,t.o).c_str());
  }
  if(settings_probe()!=sp)violate(f.name,"settings-changed","%s changed a library setting opts:%s",TK[kind],opts_str(f,t.o).c_str());
  if(R.p(.005))sample("%s of %s n=%d opts:%s: equal bits on repetition, after other calls, on patterned heap and stack, and at other addresses",TK[kind],f.name,t.n,opts_str(f,t.o).c_str());
}
PROPERTY(C22){g_longrate=.004;each_case("C22",40,[](const Fn&f,Rng&R,long){c22_case(f,R);});}
