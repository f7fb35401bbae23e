#ifndef ABSU_H
#define ABSU_H
#include "core.h"
#include "ta_abstract.h"
/* drives one function through the abstract interface */
struct AbsHold{
  const Fn*f=nullptr;const TA_FuncHandle*h=nullptr;const TA_FuncInfo*fi=nullptr;TA_ParamHolder*p=nullptr;int rc=0;
  explicit AbsHold(const Fn&fn):f(&fn){rc=TA_GetFuncHandle(fn.name,&h);if(!rc)rc=TA_GetFuncInfo(h,&fi);if(!rc)rc=TA_ParamHolderAlloc(h,&p);}
  AbsHold(const AbsHold&)=delete;
  ~AbsHold(){if(p)TA_ParamHolderFree(p);}
  /* input parameter j consumes arrays of in[] from position pos on; returns the number consumed */
  int setIn(unsigned j,const double*const*in,int pos){const TA_InputParameterInfo*ii=nullptr;int r=TA_GetInputParameterInfo(h,j,&ii);if(r){rc=r;return 0;}
    if(ii->type==TA_Input_Real){r=TA_SetInputParamRealPtr(p,j,in[pos]);if(r)rc=r;return 1;}
    if(ii->type==TA_Input_Integer){rc=-2;return 1;}
    const double*q[6]={0,0,0,0,0,0};int n=0;for(int b=0;b<6;b++)if(ii->flags&(1<<b))q[b]=in[pos+n++];
    r=TA_SetInputParamPricePtr(p,j,q[0],q[1],q[2],q[3],q[4],q[5]);if(r)rc=r;return n;}
  void setIns(const double*const*in){int pos=0;for(unsigned j=0;j<fi->nbInput;j++)pos+=setIn(j,in,pos);if(!rc&&pos!=f->nIn)rc=-3;}
  void setOpt(int j,double v){int r=f->opt[j].type==0?TA_SetOptInputParamReal(p,j,v):TA_SetOptInputParamInteger(p,j,(int)v);if(r)rc=r;}
  void setOpts(const double*o){for(int j=0;j<f->nOpt;j++)setOpt(j,o[j]);}
  void setOut(int k,void*out){int r=f->outInt[k]?TA_SetOutputParamIntegerPtr(p,k,(int*)out):TA_SetOutputParamRealPtr(p,k,(double*)out);if(r)rc=r;}
  void setOuts(void*const*out){for(int k=0;k<f->nOut;k++)setOut(k,out[k]);}
};
#endif
