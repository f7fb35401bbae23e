#ifndef CORE_H
#define CORE_H
#include "glue.h"
#include "ta_libc.h"
#include <math.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <limits.h>
#include <vector>
#include <string>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <functional>
typedef std::vector<double> VD;
typedef std::vector<int> VI;

/* association list: std::map and friends call into the uninstrumented libstdc++.so, which MemorySanitizer cannot follow */
template<class V>struct VMap{std::vector<std::pair<std::string,V>>v;
  V*get(const char*k){for(auto&x:v)if(!strcmp(x.first.c_str(),k))return &x.second;return nullptr;}
  V&operator[](const char*k){V*p=get(k);if(p)return *p;v.emplace_back(k,V());return v.back().second;}
  V&operator[](const std::string&k){return (*this)[k.c_str()];}
  bool count(const std::string&k){return get(k.c_str())!=nullptr;}
  typename std::vector<std::pair<std::string,V>>::iterator begin(){return v.begin();}
  typename std::vector<std::pair<std::string,V>>::iterator end(){return v.end();}};
/* ---------------- random numbers ---------------- */
static inline uint64_t mix64(uint64_t x){x+=0x9e3779b97f4a7c15ULL;x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL;x=(x^(x>>27))*0x94d049bb133111ebULL;return x^(x>>31);}
static inline uint64_t hstr(const char*s){uint64_t h=1469598103934665603ULL;while(*s){h^=(unsigned char)*s++;h*=1099511628211ULL;}return h;}
struct Rng{uint64_t s;explicit Rng(uint64_t x=1):s(mix64(x)){}
  uint64_t u(){s+=0x9e3779b97f4a7c15ULL;return mix64(s);}
  int in(int a,int b){return a+(int)(u()%(uint64_t)((int64_t)b-a+1));}   /* inclusive */
  double d(){return (double)(u()>>11)/9007199254740992.0;}
  double d(double a,double b){return a+(b-a)*d();}
  bool p(double q){return d()<q;}
  double g(){double x=0;for(int i=0;i<6;i++)x+=d();return (x-3)*1.41;}
};

/* ---------------- options / reporting ---------------- */
struct Opts{std::string prop,fn,tier="quick";uint64_t seed=1;int shard=0,nshard=1;long cases=-1;long only=-1;double scale=1;std::string sub;std::string tmp="/tmp";};
extern Opts OPT;
void prog(const char*fn,long cs,const char*step);            /* crash-attribution record */
void violate(const char*fn,const char*kind,const char*fmt,...) __attribute__((format(printf,3,4)));
void stat_add(const char*k,double v=1);
void stat_max(const char*k,double v);
void sample(const char*fmt,...) __attribute__((format(printf,1,2)));
void inconclusive(const char*fmt,...) __attribute__((format(printf,1,2)));
void seen(uint64_t h,bool nontrivial);      /* counts an evaluation */
extern long g_curcase; extern const char*g_curfn; extern long g_nviol;

/* ---------------- price series ---------------- */
struct Series{int n=0;VD O,H,L,C,V,r,s,p;int kind=0;const char*tag="";
  const double*get(char k)const{switch(k){case'O':return O.data();case'H':return H.data();case'L':return L.data();case'C':return C.data();case'V':return V.data();case'r':return r.data();case's':return s.data();default:return p.data();}}
};
enum{GRID_DYADIC=0,GRID_CENT=1,GRID_CONT=2};
void gen_series(Rng&R,int n,Series&S,int grid=-1,int kind=-1);
void poison_series(Rng&R,Series&S);          /* NaN, inf, huge, denormal values */
const int NKIND=13;

/* ---------------- parameters ---------------- */
void gen_opts(Rng&R,const Fn&f,double*o,int maxper=40,bool sentinel=true);
extern double g_longrate; int gen_len(Rng&R,int normal);    /* bars beyond the lookback: `normal`, or now and then thousands */
extern double g_bigrate; extern bool g_big;   /* share of parameter sets with periods from their whole documented range; was the last one? */
void limit_cost(const Fn&f,double*o);
std::string opts_str(const Fn&f,const double*o);
void resolve_opts(const Fn&f,const double*o,double*r);   /* defaults substituted */

/* ---------------- calls with guarded buffers ---------------- */
struct Out{int rc=-1,b=-777,n=-777;VD v[3];VI iv[3];
  double at(const Fn&f,int k,int i)const{return f.outInt[k]?(double)iv[k][i]:v[k][i];}};
extern bool g_guard_bad;
struct Ins{std::vector<const double*> p;};
void ins_of(const Fn&f,const Series&S,std::vector<const double*>&v,int off=0);
/* runs batch into fresh exact-size buffers; returns results (outputs have o.n elements) */
Out run_batch(const Fn&f,int s,int e,const double*const*in,const double*o,int cap=-1);
Out run_float(const Fn&f,int s,int e,const float*const*in,const double*o,int cap=-1);
Out run_form(bool fl,const Fn&f,int s,int e,const double*const*in,const double*o);   /* fl: the single-precision entry point, when it exists, the values fit and its arithmetic is double */
bool float_arith(const Fn&f);
Out run_state(const Fn&f,int n,const double*const*in,const double*o,VI*rcs,int*initrc=nullptr);
int expect_nb(int s,int e,int lb);
/* ---------------- comparison ---------------- */
static inline bool same_bits(double a,double b){uint64_t x,y;memcpy(&x,&a,8);memcpy(&y,&b,8);return x==y;}
static inline bool close(double a,double b,double rt,double at){
  if(isnan(a)||isnan(b))return isnan(a)&&isnan(b);
  if(a==b)return true; if(isinf(a)||isinf(b))return false;
  return fabs(a-b)<=at+rt*fmax(fabs(a),fabs(b));}
void refine(Rng&R,Series&S);
bool no_fine(const Fn&f);
bool hilbert(const Fn&f,const double*ro);
bool flat(const Fn&f,const Series&S,int bar);
bool in_volume_units(const Fn&f);
double in_scale(const Fn&f,const Series&S);
/* Conditioning guard: how far does the batch result of (s,e) move when every input is
   perturbed by a relative eps? (largest move over `reps` perturbations of output k, element i) */
double wobble(const Fn&f,int s,int e,int n,const double*const*in,const double*o,int k,int i,double eps,int reps=16);
static inline bool idx_output(const Fn&f){return !strcmp(f.name,"MININDEX")||!strcmp(f.name,"MAXINDEX")||!strcmp(f.name,"MINMAXINDEX");}
const Fn*find_fn(const char*name);
static inline bool is(const Fn&f,const char*n){return !strcmp(f.name,n);}
void init_lib(void);
void each_case(const char*prop,long quickCases,const std::function<void(const Fn&,Rng&,long)>&body,const std::function<bool(const Fn&)>&filter=nullptr);
/* random library-wide settings for one case, restored on destruction */
struct Globals{int unst=0;bool meta=false;std::string cs;
  Globals(Rng&R,double pu,double pm,double pc=0);
  ~Globals();
  std::string str()const;};
/* properties */
typedef void(*PropFn)();
struct PropReg{PropReg(const char*id,PropFn f);};
VMap<PropFn>&props();
#define PROPERTY(id) static void prop_##id();static PropReg reg_##id(#id,prop_##id);static void prop_##id()
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define HAVE_MSAN 1
#endif
#if __has_feature(thread_sanitizer)
#define HAVE_TSAN 1
#endif
#endif
#endif
