#ifndef REF_H
#define REF_H
#include "core.h"
namespace ref {
/* one evaluation: the bars [startIdx-lookback .. endIdx], outputs valid from index lb */
struct W{int m,lb,st; /* st: requested start (may lie before lb) */
  int early(int l)const{return std::min(lb,std::max(st,l));}
  VD O,H,L,C,V,x,y,p;VD out[3];double at,sc;bool sing=false,cond;};
/* exact: 1 bit-accurate (or last digits), 2 index outputs (out holds the extreme value), 0 tolerance */
struct Model{std::function<int(const double*)>lb;std::function<void(W&,const double*)>calc;int grp;int exact=0;};
const Model*find(const char*n);
int U(int id);
bool eval(const Fn&f,const double*ro,const double*const*in,int a,int e,W&w,int lb,int st);
}
#endif
