/* C13 abstract == direct, C14 metadata, C15 misuse of the abstract interface */
#include "absu.h"
#include <set>
uint64_t case_hash(const Fn&f,const double*o,int s,int e,const Series&S);
struct Buf{VD d[3];VI v[3];void*p[3];const Fn&f;int n;
  Buf(const Fn&f_,int n_):f(f_),n(n_){for(int k=0;k<f.nOut;k++){if(f.outInt[k]){v[k].assign(n,0x5a17dead);p[k]=v[k].data();}else{d[k].assign(n,-1.2345e99);p[k]=d[k].data();}}}
  void*at(int k,int i){return f.outInt[k]?(void*)(v[k].data()+i):(void*)(d[k].data()+i);}
  bool eq(const Buf&b,int*kk=nullptr,int*ii=nullptr)const{for(int k=0;k<f.nOut;k++)for(int i=0;i<n;i++){bool ok=f.outInt[k]?v[k][i]==b.v[k][i]:(same_bits(d[k][i],b.d[k][i])||(isnan(d[k][i])&&isnan(b.d[k][i])));if(!ok){if(kk)*kk=k;if(ii)*ii=i;return false;}}return true;}
  std::string str(int k,int i)const{char t[40];if(f.outInt[k])snprintf(t,40,"%d",v[k][i]);else snprintf(t,40,"%.17g",d[k][i]);return t;}};
/* ------------------------------------------------------------------ C13 */
static void c13_case(const Fn&f,Rng&R){
  Globals G(R,.2,.1,.15);
  double o[8],eff[8];gen_opts(R,f,o,R.p(.02)?400:30);bool unset[8];for(int j=0;j<f.nOpt;j++){unset[j]=R.p(.2);eff[j]=unset[j]?f.opt[j].def:o[j];}
  if(is(f,"MAVP")){double r[8];resolve_opts(f,eff,r);if(r[0]>r[1]){for(int j=0;j<2;j++){unset[j]=true;eff[j]=f.opt[j].def;}}}
  bool badopt=R.p(.05)&&f.nOpt;if(badopt){int j=R.in(0,f.nOpt-1);unset[j]=false;o[j]=eff[j]=f.opt[j].type==0?-3.9e37:f.opt[j].min-1;}
  int lb=f.lookback(eff);if(lb>4000)return;
  int n=(lb<0?10:lb)+gen_len(R,R.in(1,30));Series S;gen_series(R,n,S);if(R.p(.2))poison_series(R,S);std::vector<const double*>in;ins_of(f,S,in);
  Series X;gen_series(R,n,X);std::vector<const double*>junk;ins_of(f,X,junk);
  seen(case_hash(f,eff,0,n-1,S),lb<n);prog(f.name,g_curcase,"abstract batch");
  AbsHold A(f);if(A.rc){violate(f.name,"holder","handle/info/alloc rc=%d",A.rc);return;}
  Buf D(f,n),B(f,n),J(f,n);
  /* settings in a random order, some of them first with other values */
  struct Op{int what,idx;bool junk;};std::vector<Op>ops;
  for(unsigned j=0;j<A.fi->nbInput;j++)ops.push_back({0,(int)j,false});
  for(int j=0;j<f.nOpt;j++)if(!unset[j])ops.push_back({1,j,false});
  for(int k=0;k<f.nOut;k++)ops.push_back({2,k,false});
  for(size_t i=ops.size();i>1;i--)std::swap(ops[i-1],ops[R.in(0,(int)i-1)]);
  {std::vector<Op>q;for(auto&x:ops){if(R.p(.25)){q.push_back({x.what,x.idx,true});stat_add("re_set_parameters");}}for(size_t i=0;i<q.size();i++){ /* junk always before the proper setting */
     size_t pos=0;for(size_t m=0;m<ops.size();m++)if(!ops[m].junk&&ops[m].what==q[i].what&&ops[m].idx==q[i].idx)pos=m;ops.insert(ops.begin()+R.in(0,(int)pos),q[i]);}}
  std::vector<int>posOf;{int pos=0;for(unsigned j=0;j<A.fi->nbInput;j++){posOf.push_back(pos);const TA_InputParameterInfo*ii=nullptr;TA_GetInputParameterInfo(A.h,j,&ii);if(!ii){violate(f.name,"input-info","input %u has no info",j);return;}pos+=ii->type==TA_Input_Price?__builtin_popcount(ii->flags&0x3f):1;}if(pos!=f.nIn){violate(f.name,"input-count","the abstract inputs name %d arrays, the function takes %d",pos,f.nIn);return;}}
  for(auto&x:ops){if(x.what==0)A.setIn(x.idx,(x.junk?junk:in).data(),posOf[x.idx]);else if(x.what==1)A.setOpt(x.idx,x.junk?(f.opt[x.idx].type==0?1.5:f.opt[x.idx].min+3):o[x.idx]);else A.setOut(x.idx,x.junk?J.p[x.idx]:B.p[x.idx]);}
  if(A.rc){violate(f.name,"set-rc","setting the parameters returned %d",A.rc);return;}
  int l=-9;int rc=TA_GetLookback(A.p,&l);stat_add("lookbacks");
  if(rc||l!=lb)violate(f.name,"lookback","TA_GetLookback rc=%d gives %d, TA_%s_Lookback gives %d opts:%s",rc,l,f.name,lb,opts_str(f,eff).c_str());
  for(int rep=0;rep<2;rep++){int s=R.in(0,n-1),e=R.in(s,n-1);if(rep==0&&R.p(.6)){s=0;e=n-1;}if(R.p(.05)){s=-1;}if(R.p(.05))e=R.in(-2,s-1);
    int b1=-9,n1=-9,b2=-9,n2=-9;Buf D2(f,n);int r1=f.batch(s,e,in.data(),eff,&b1,&n1,D2.p);for(int k=0;k<f.nOut;k++){if(f.outInt[k])B.v[k].assign(n,0x5a17dead);else B.d[k].assign(n,-1.2345e99);}
    for(int k=0;k<f.nOut;k++)if(B.p[k]!=(f.outInt[k]?(void*)B.v[k].data():(void*)B.d[k].data())){fprintf(stderr,"moved\n");exit(3);}
    int r2=TA_CallFunc(A.p,s,e,&b2,&n2);stat_add("calls");int kk=0,ii=0;
    if(r1!=r2||b1!=b2||n1!=n2)violate(f.name,"call-range","TA_CallFunc(%d,%d) rc/beg/n %d/%d/%d, direct call %d/%d/%d opts:%s",s,e,r2,b2,n2,r1,b1,n1,opts_str(f,eff).c_str());
    else if(!B.eq(D2,&kk,&ii))violate(f.name,"call-value","TA_CallFunc(%d,%d) out#%d[%d]=%s, direct call %s opts:%s",s,e,kk,ii,B.str(kk,ii).c_str(),D2.str(kk,ii).c_str(),opts_str(f,eff).c_str());
    else if(!J.eq(Buf(f,n)))violate(f.name,"call-stray-output","TA_CallFunc wrote to a replaced output array");
    else if(n1>0)stat_add("outputs",n1*f.nOut);}
  /* streaming: through the holder, through the function pointers and directly */
  prog(f.name,g_curcase,"abstract stream");
  void*st=nullptr;int r1=f.sinit(&st,eff);bool byptr=R.p(.4);TA_StateFunc fi_=nullptr,fs_=nullptr,ff_=nullptr;TA_BatchStateFunc fb_=nullptr;TA_StateIOFunc fsv_=nullptr,fld_=nullptr;
  rc=TA_GetInitNewStateFuncPtr(A.fi,&fi_)|TA_GetCallFuncStateFuncPtr(A.fi,&fs_)|TA_GetCallFuncBatchStateFuncPtr(A.fi,&fb_)|TA_GetFreeStateFuncPtr(A.fi,&ff_)|TA_GetSaveStateFuncPtr(A.fi,&fsv_)|TA_GetLoadStateFuncPtr(A.fi,&fld_);
  if(rc){violate(f.name,"func-ptr","the state function pointers are not all available");if(st)f.sfree(&st);return;}
  void*hp=A.p->hiddenData;
  int r2=byptr?(int)fi_(hp):(int)TA_InitNewState(A.p);
  if(r1!=r2){violate(f.name,"init-rc","TA_InitNewState %d, StateInit %d opts:%s",r2,r1,opts_str(f,eff).c_str());}
  if(r1||r2){if(st)f.sfree(&st);if(!r2)TA_FreeState(A.p);return;}
  double x[5];const double*px[5];for(int j=0;j<f.nIn;j++)px[j]=&x[j];
  int i=0,saveAt=R.p(.5)?R.in(0,n-1):-1;
  while(i<n){
    if(i==saveAt||(saveAt>=0&&i>saveAt)){saveAt=-1;
      char*b1=nullptr,*b2=nullptr;size_t l1=0,l2=0;FILE*m1=open_memstream(&b1,&l1),*m2=open_memstream(&b2,&l2);int a=f.ssave(st,m1),b=byptr?(int)fsv_(hp,m2):(int)TA_SaveState(A.p,m2);fclose(m1);fclose(m2);
      if(a!=b||l1!=l2)violate(f.name,"save","TA_SaveState rc=%d %zu bytes, StateSave rc=%d %zu bytes opts:%s",b,l2,a,l1,opts_str(f,eff).c_str());
      /* either side loads what the other side saved */
      f.sfree(&st);st=nullptr;int fr=byptr?(int)ff_(hp):(int)TA_FreeState(A.p);if(fr)violate(f.name,"free-rc","TA_FreeState rc=%d",fr);void*left=(void*)1;TA_GetParamStatePtr(A.p,&left);if(left)violate(f.name,"free-notnull","TA_FreeState leaves the state pointer set");
      FILE*q1=fmemopen(b2,l2,"rb"),*q2=fmemopen(b1,l1,"rb");a=f.sload(&st,q1);b=byptr?(int)fld_(hp,q2):(int)TA_LoadState(A.p,q2);fclose(q1);fclose(q2);free(b1);free(b2);stat_add("save_loads");
      if(a||b){violate(f.name,"load","loading: StateLoad rc=%d, TA_LoadState rc=%d opts:%s",a,b,opts_str(f,eff).c_str());if(st)f.sfree(&st);if(!b)TA_FreeState(A.p);return;}
    }
    if(R.p(.3)){int m=R.in(1,8);if(i+m>n)m=n-i;Buf P(f,m),Q(f,m);for(int k=0;k<f.nOut;k++)A.setOut(k,Q.p[k]);A.setIns(in.data());
      int b1=-9,n1=-9,b2=-9,n2=-9;int a=f.sbatch(st,i,i+m-1,in.data(),&b1,&n1,P.p),b=byptr?(int)fb_(hp,i,i+m-1,&b2,&n2):(int)TA_CallFuncBatchState(A.p,i,i+m-1,&b2,&n2);stat_add("blocks");
      if(a!=b||b1!=b2||n1!=n2||!P.eq(Q)){violate(f.name,"block","block %d..%d: TA_CallFuncBatchState rc/beg/n %d/%d/%d, direct %d/%d/%d, or outputs differ opts:%s",i,i+m-1,b,b2,n2,a,b1,n1,opts_str(f,eff).c_str());break;}
      i+=m;
    }else{Buf P(f,1),Q(f,1);for(int j=0;j<f.nIn;j++)x[j]=in[j][i];A.setIns(px);for(int k=0;k<f.nOut;k++)A.setOut(k,Q.p[k]);
      int a=f.sstep(st,x,P.p),b=byptr?(int)fs_(hp):(int)TA_CallFuncState(A.p);stat_add("steps");
      if(a!=b||!P.eq(Q)){violate(f.name,"step","bar %d: TA_CallFuncState rc=%d, direct rc=%d, or outputs differ (%s vs %s) opts:%s",i,b,a,Q.str(0,0).c_str(),P.str(0,0).c_str(),opts_str(f,eff).c_str());break;}
      i++;}
    if(A.rc){violate(f.name,"set-rc","re-setting parameters during a stream returned %d",A.rc);break;}
  }
  f.sfree(&st);rc=byptr?(int)ff_(hp):(int)TA_FreeState(A.p);void*left=(void*)1;TA_GetParamStatePtr(A.p,&left);
  if(rc||left)violate(f.name,"free-rc","TA_FreeState rc=%d, state pointer %s",rc,left?"still set":"cleared");
  if(R.p(.005))sample("%s through a holder (%d settings in random order, %d optional left unset): batch, stepped, block and reloaded stream equal the direct calls",f.name,(int)ops.size(),(int)std::count(unset,unset+f.nOpt,true));
}
PROPERTY(C13){g_longrate=.0005;each_case("C13",60,[](const Fn&f,Rng&R,long){c13_case(f,R);});}
/* ------------------------------------------------------------------ C14 */
static void collect(const TA_FuncInfo*fi,void*op){((std::vector<std::string>*)op)->push_back(fi->name);}
static std::string js(const char*s){std::string r="\"";for(;s&&*s;s++){unsigned char c=*s;if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c<32){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;}else r+=c;}return r+"\"";}
static const char*kindName(char c){switch(c){case'O':return"open";case'H':return"high";case'L':return"low";case'C':return"close";case'V':return"volume";}return"real";}
static void c14_meta(const Fn&f){
  const TA_FuncHandle*h=nullptr;const TA_FuncInfo*fi=nullptr;int rc=TA_GetFuncHandle(f.name,&h);if(!rc)rc=TA_GetFuncInfo(h,&fi);if(rc){violate(f.name,"handle","TA_GetFuncHandle/Info rc=%d",rc);return;}
  auto S=[&](const char*what,const char*got,const char*want){stat_add("metadata_fields");if(!got||strcmp(got,want))violate(f.name,"metadata","%s is \"%s\", expected \"%s\"",what,got?got:"(null)",want);};
  auto N=[&](const char*what,double got,double want){stat_add("metadata_fields");if(!(got==want))violate(f.name,"metadata","%s is %.17g, expected %.17g",what,got,want);};
  S("name",fi->name,f.name);S("group",fi->group,f.group);S("camelCaseName",fi->camelCaseName,f.camel);S("hint",fi->hint,f.hint);
  N("nbOptInput",fi->nbOptInput,f.nOpt);N("nbOutput",fi->nbOutput,f.nOut);if((const void*)fi->handle!=(const void*)h)violate(f.name,"metadata","funcInfo->handle is not the function's handle");
  N("candlestick flag",!!(fi->flags&TA_FUNC_FLG_CANDLESTICK),!!(f.flags&FL_CDL));N("unstable period flag",!!(fi->flags&TA_FUNC_FLG_UNST_PER),!!(f.flags&FL_UNST));N("overlap flag",!!(fi->flags&TA_FUNC_FLG_OVERLAP),!!(f.flags&FL_OVER));
  /* inputs, in prototype order */
  std::string kinds;for(unsigned j=0;j<fi->nbInput;j++){const TA_InputParameterInfo*ii=nullptr;if(TA_GetInputParameterInfo(h,j,&ii)||!ii){violate(f.name,"metadata","no information on input %u",j);return;}
    if(ii->type==TA_Input_Price){const char*c="OHLCV";for(int b=0;b<5;b++)if(ii->flags&(1<<b))kinds+=c[b];if(ii->flags&~0x1f)violate(f.name,"metadata","input flags %x name more than open..volume",ii->flags);if(!(ii->flags&0x1f))violate(f.name,"metadata","price input without a price");}
    else{if(ii->type!=TA_Input_Real)violate(f.name,"metadata","input %u has type %d",j,ii->type);kinds+='r';}
    if(!ii->paramName||!*ii->paramName)violate(f.name,"metadata","input %u has no name",j);}
  std::string want;for(const char*p=f.kinds;*p;p++)want+=strchr("OHLCV",*p)?*p:'r';
  S("input arrays",kinds.c_str(),want.c_str());
  const TA_InputParameterInfo*bi=(const TA_InputParameterInfo*)8;rc=TA_GetInputParameterInfo(h,fi->nbInput,&bi);if(rc!=TA_BAD_PARAM||bi)violate(f.name,"metadata","input index %u accepted (rc=%d)",fi->nbInput,rc);
  { /* state fields */
    std::set<std::string>nm;for(unsigned j=0;j<fi->nbStructParams;j++){const TA_InputParameterInfo*si=nullptr;if(TA_GetStructParameterInfo(h,j,&si)||!si){violate(f.name,"metadata","no information on state field %u",j);return;}stat_add("metadata_fields");
      if(si->type!=TA_Input_Real&&si->type!=TA_Input_Integer&&si->type!=TA_Input_Pointer)violate(f.name,"metadata","state field %u has type %d",j,si->type);if(!si->paramName||!*si->paramName||!nm.insert(si->paramName).second)violate(f.name,"metadata","state field %u has no name of its own",j);}
    static const unsigned far_[]={0,1,31,1000,0x7fffffff,0x80000000u-1};for(unsigned d:far_){const TA_InputParameterInfo*si=(const TA_InputParameterInfo*)8;rc=TA_GetStructParameterInfo(h,fi->nbStructParams+d,&si);if(rc!=TA_BAD_PARAM||si)violate(f.name,"metadata","state field index %u accepted (rc=%d)",fi->nbStructParams+d,rc);}}
  for(int k=0;k<f.nOut;k++){const TA_OutputParameterInfo*oi=nullptr;if(TA_GetOutputParameterInfo(h,k,&oi)||!oi){violate(f.name,"metadata","no information on output %d",k);return;}
    N("output type",oi->type,f.outInt[k]?TA_Output_Integer:TA_Output_Real);S("output name",oi->paramName,f.outName[k]);}
  const TA_OutputParameterInfo*bo=(const TA_OutputParameterInfo*)8;rc=TA_GetOutputParameterInfo(h,fi->nbOutput,&bo);if(rc!=TA_BAD_PARAM||bo)violate(f.name,"metadata","output index %u accepted (rc=%d)",fi->nbOutput,rc);
  const TA_OptInputParameterInfo*bp=(const TA_OptInputParameterInfo*)8;rc=TA_GetOptInputParameterInfo(h,fi->nbOptInput,&bp);if(rc!=TA_BAD_PARAM||bp)violate(f.name,"metadata","optional input index %u accepted (rc=%d)",fi->nbOptInput,rc);
  double def[8],sen[8],mn[8],mx[8];
  for(int j=0;j<f.nOpt;j++){const OptD&d=f.opt[j];const TA_OptInputParameterInfo*oi=nullptr;if(TA_GetOptInputParameterInfo(h,j,&oi)||!oi){violate(f.name,"metadata","no information on optional input %d",j);return;}
    S("optional input name",oi->paramName,d.name);N("optional input default",oi->defaultValue,d.def);if(!oi->displayName||!*oi->displayName)violate(f.name,"metadata","optional input %d has no display name",j);if(!oi->dataSet){violate(f.name,"metadata","optional input %d has no range",j);return;}
    def[j]=oi->defaultValue;sen[j]=d.type==0?-4e37:(double)INT_MIN;
    if(d.type==0){N("optional input type",oi->type,TA_OptInput_RealRange);const TA_RealRange*r=(const TA_RealRange*)oi->dataSet;N("minimum",r->min,d.min);N("maximum",r->max,d.max);mn[j]=r->min;mx[j]=r->max;
      if(!(r->suggested_start>=r->min&&r->suggested_end<=r->max&&r->suggested_start<=r->suggested_end&&r->suggested_increment>=0&&(r->suggested_increment>0||r->suggested_start==r->suggested_end)))violate(f.name,"metadata","suggested range %g..%g step %g of %s is not inside %g..%g",r->suggested_start,r->suggested_end,r->suggested_increment,d.name,r->min,r->max);}
    else if(d.type==1){N("optional input type",oi->type,TA_OptInput_IntegerRange);const TA_IntegerRange*r=(const TA_IntegerRange*)oi->dataSet;N("minimum",r->min,d.min);N("maximum",r->max,d.max);mn[j]=r->min;mx[j]=r->max;
      if(!(r->suggested_start>=r->min&&r->suggested_end<=r->max&&r->suggested_start<=r->suggested_end&&r->suggested_increment>0))violate(f.name,"metadata","suggested range %d..%d step %d of %s is not inside %d..%d",r->suggested_start,r->suggested_end,r->suggested_increment,d.name,r->min,r->max);}
    else{N("optional input type",oi->type,TA_OptInput_IntegerList);const TA_IntegerList*l=(const TA_IntegerList*)oi->dataSet;N("value list size",l->nbElement,10);static const char*mat[]={"SMA","EMA","WMA","DEMA","TEMA","TRIMA","KAMA","MAMA","T3"};
      std::set<int>vals;mn[j]=0;mx[j]=9;for(unsigned i=0;i<l->nbElement;i++){if(!vals.insert(l->data[i].value).second)violate(f.name,"metadata","value %d listed twice",l->data[i].value);if(l->data[i].value<0||l->data[i].value>9)violate(f.name,"metadata","listed value %d is refused by the function",l->data[i].value);if(!l->data[i].string||!*l->data[i].string)violate(f.name,"metadata","list value %d has no text",l->data[i].value);
        if(l->data[i].value>=0&&l->data[i].value<9&&l->data[i].string){std::string s(l->data[i].string);if(s.find(mat[l->data[i].value])==std::string::npos&&!(l->data[i].value==8&&s.find("T3")!=std::string::npos))violate(f.name,"metadata","list value %d is described as \"%s\"",l->data[i].value,l->data[i].string);}}
      if(!vals.count((int)oi->defaultValue))violate(f.name,"metadata","default %g is not in the list",oi->defaultValue);}
    if(!(oi->defaultValue>=mn[j]&&oi->defaultValue<=mx[j]))violate(f.name,"metadata","default %g of %s outside %g..%g",oi->defaultValue,d.name,mn[j],mx[j]);}
  /* metadata against behaviour */
  if(f.nOpt){int a=f.lookback(def),b=f.lookback(sen);if(a!=b)violate(f.name,"metadata-behaviour","lookback with the listed defaults is %d, with default sentinels %d",a,b);
    for(int j=0;j<f.nOpt;j++){double o[8];for(int side=0;side<2;side++){memcpy(o,def,sizeof o);double lim=side?mx[j]:mn[j];o[j]=lim;if(is(f,"MAVP")&&j<2){o[0]=o[1]=lim;}
        if(f.lookback(o)<0)violate(f.name,"metadata-behaviour","listed limit %s=%g is refused",f.opt[j].name,lim);
        double out=f.opt[j].type==0?(side?nextafter(lim,INFINITY):nextafter(lim,-INFINITY)):lim+(side?1:-1);memcpy(o,def,sizeof o);o[j]=out;if(f.lookback(o)!=-1)violate(f.name,"metadata-behaviour","%s=%.17g is accepted although the listed limit is %g",f.opt[j].name,out,lim);stat_add("behaviour_probes",2);}}}
  double sdef[8];for(int j=0;j<f.nOpt;j++)sdef[j]=f.opt[j].def;
  int l0=f.lookback(sdef);TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,7);int l7=f.lookback(sdef);TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,0);stat_add("behaviour_probes");
  if((fi->flags&TA_FUNC_FLG_UNST_PER)&&l7<=l0)violate(f.name,"metadata-behaviour","flagged as having an unstable period but the lookback does not react to one");
  if((fi->flags&TA_FUNC_FLG_CANDLESTICK)&&(f.nOut!=1||!f.outInt[0]||strcmp(f.kinds,"OHLC")))violate(f.name,"metadata-behaviour","flagged as candlestick but does not map open, high, low, close to an integer");
  if(!(fi->flags&TA_FUNC_FLG_CANDLESTICK)!=!!strcmp(fi->group,"Pattern Recognition"))violate(f.name,"metadata-behaviour","candlestick flag and group \"%s\" disagree",fi->group);
}
/* the prices named by the input flags are the ones the outputs react to */
static void c14_inputs(const Fn&f,Rng&R){
  double o[8];gen_opts(R,f,o,12,false);int lb=f.lookback(o);if(lb<0||lb>400)return;int n=lb+R.in(20,60);Series S;gen_series(R,n,S,-1,R.p(.5)?7:0);AbsHold A(f);if(A.rc){violate(f.name,"holder","rc=%d",A.rc);return;}
  std::vector<const double*>in;ins_of(f,S,in);seen(case_hash(f,o,0,n-1,S),true);
  Buf B(f,n),D(f,n);A.setIns(in.data());A.setOpts(o);A.setOuts(B.p);int b=0,nb=0,b2=0,n2=0;int rc=TA_CallFunc(A.p,0,n-1,&b,&nb);int r2=f.batch(0,n-1,in.data(),o,&b2,&n2,D.p);
  if(rc!=r2||b!=b2||nb!=n2||!B.eq(D))violate(f.name,"input-flags","a call with the arrays named by the input flags differs from the direct call opts:%s",opts_str(f,o).c_str());stat_add("flag_calls");
  if(f.flags&FL_OVER){ /* overlap: outputs live on the scale of the price input */ stat_add("overlap_probes");}
}
PROPERTY(C14){
  if(OPT.sub=="dump"){ /* metadata and XML for the python comparison */
    FILE*x=fopen((OPT.tmp+"/runtime.xml").c_str(),"wb");const char*s=TA_FunctionDescriptionXML();fwrite(s,1,strlen(s),x);fclose(x);
    FILE*m=fopen((OPT.tmp+"/meta.json").c_str(),"w");fprintf(m,"[");std::vector<std::string>v;TA_ForEachFunc(collect,&v);bool first=true;
    for(auto&n:v){const TA_FuncHandle*h=nullptr;const TA_FuncInfo*fi=nullptr;if(TA_GetFuncHandle(n.c_str(),&h)||TA_GetFuncInfo(h,&fi))continue;
      fprintf(m,"%s\n{\"name\":%s,\"camel\":%s,\"hint\":%s,\"group\":%s,\"flags\":%d,\"in\":[",first?"":",",js(fi->name).c_str(),js(fi->camelCaseName).c_str(),js(fi->hint).c_str(),js(fi->group).c_str(),fi->flags);first=false;
      for(unsigned j=0;j<fi->nbInput;j++){const TA_InputParameterInfo*i=nullptr;TA_GetInputParameterInfo(h,j,&i);if(i)fprintf(m,"%s{\"type\":%d,\"name\":%s,\"flags\":%d}",j?",":"",i->type,js(i->paramName).c_str(),i->flags);}
      fprintf(m,"],\"opt\":[");
      for(unsigned j=0;j<fi->nbOptInput;j++){const TA_OptInputParameterInfo*i=nullptr;TA_GetOptInputParameterInfo(h,j,&i);if(!i)continue;fprintf(m,"%s{\"type\":%d,\"name\":%s,\"display\":%s,\"hint\":%s,\"flags\":%d,\"def\":%.17g",j?",":"",i->type,js(i->paramName).c_str(),js(i->displayName).c_str(),js(i->hint).c_str(),i->flags,i->defaultValue);
        if(i->type==TA_OptInput_RealRange){const TA_RealRange*r=(const TA_RealRange*)i->dataSet;fprintf(m,",\"range\":[%.17g,%.17g,%d,%.17g,%.17g,%.17g]",r->min,r->max,r->precision,r->suggested_start,r->suggested_end,r->suggested_increment);}
        else if(i->type==TA_OptInput_IntegerRange){const TA_IntegerRange*r=(const TA_IntegerRange*)i->dataSet;fprintf(m,",\"range\":[%d,%d,%d,%d,%d]",r->min,r->max,r->suggested_start,r->suggested_end,r->suggested_increment);}
        fprintf(m,"}");}
      fprintf(m,"],\"struct\":[");
      for(unsigned j=0;j<fi->nbStructParams;j++){const TA_InputParameterInfo*i=nullptr;TA_GetStructParameterInfo(h,j,&i);if(i)fprintf(m,"%s{\"type\":%d,\"name\":%s}",j?",":"",i->type,js(i->paramName).c_str());}
      fprintf(m,"],\"out\":[");
      for(unsigned j=0;j<fi->nbOutput;j++){const TA_OutputParameterInfo*i=nullptr;TA_GetOutputParameterInfo(h,j,&i);if(i)fprintf(m,"%s{\"type\":%d,\"name\":%s,\"flags\":%d}",j?",":"",i->type,js(i->paramName).c_str(),i->flags);}
      fprintf(m,"]}");}
    fprintf(m,"]\n");fclose(m);return;}
  if(OPT.shard==0&&OPT.only<0){
    g_curcase=-2;
    for(int i=0;i<NFN;i++)if(OPT.fn.empty()||OPT.fn==FNS[i].name){prog(FNS[i].name,-2,"metadata");c14_meta(FNS[i]);stat_add("functions_described");}
    if(OPT.fn.empty()){ prog("-",-2,"tables");
      std::set<std::string>all;for(int i=0;i<NFN;i++)all.insert(FNS[i].name);
      std::vector<std::string>v;TA_ForEachFunc(collect,&v);std::set<std::string>s(v.begin(),v.end());
      if(v.size()!=s.size())violate("-","foreach","TA_ForEachFunc reports a function twice");if(s!=all)violate("-","foreach","TA_ForEachFunc reports %zu functions, the API has %zu",s.size(),all.size());
      if(TA_ForEachFunc(nullptr,nullptr)!=TA_BAD_PARAM)violate("-","foreach","TA_ForEachFunc(NULL) is accepted");
      TA_StringTable*g=nullptr;int rc=TA_GroupTableAlloc(&g);if(rc||!g){violate("-","groups","rc=%d",rc);return;}
      std::set<std::string>gs,fg,seenF;for(unsigned i=0;i<g->size;i++)if(!gs.insert(g->string[i]).second)violate("-","groups","group %s listed twice",g->string[i]);for(int i=0;i<NFN;i++)fg.insert(FNS[i].group);
      if(gs!=fg)violate("-","groups","%zu groups listed, functions use %zu",gs.size(),fg.size());
      for(unsigned i=0;i<g->size;i++){TA_StringTable*t=nullptr;rc=TA_FuncTableAlloc(g->string[i],&t);if(rc||!t){violate("-","groups","no function table for %s rc=%d",g->string[i],rc);continue;}
        for(unsigned j=0;j<t->size;j++){stat_add("group_entries");if(!seenF.insert(t->string[j]).second)violate("-","groups","%s is in two groups or twice in %s",t->string[j],g->string[i]);
          const TA_FuncHandle*h=nullptr;const TA_FuncInfo*fi=nullptr;if(TA_GetFuncHandle(t->string[j],&h)||TA_GetFuncInfo(h,&fi))violate("-","groups","%s of group %s has no handle",t->string[j],g->string[i]);else if(strcmp(fi->group,g->string[i]))violate("-","groups","%s is listed under %s but says %s",t->string[j],g->string[i],fi->group);}
        TA_FuncTableFree(t);}
      TA_GroupTableFree(g);if(seenF!=all)violate("-","groups","the groups hold %zu functions, the API has %zu",seenF.size(),all.size());
      const char*x=TA_FunctionDescriptionXML();size_t len=strlen(x);stat_add("xml_bytes",len);if(len<100000||strncmp(x,"<?xml",5))violate("-","xml","the XML description has %zu bytes",len);
    }}
  each_case("C14",8,[](const Fn&f,Rng&R,long){c14_inputs(f,R);});
}
/* ------------------------------------------------------------------ C15 */
struct Model{AbsHold*A=nullptr;std::vector<const double*>in;std::vector<bool>inSet;double o[8];std::vector<void*>out;std::vector<int>inPos,inCnt;void*direct=nullptr;bool hasState=false;double so[8];
  bool allIn()const{for(bool b:inSet)if(!b)return false;return true;}bool allOut()const{for(void*p:out)if(!p)return false;return true;}};
static void c15_case(const Fn&f0,Rng&R){
  int K=R.in(1,3);const int n=60;std::vector<Model>M(K);std::vector<Series>ser(3);for(auto&s:ser)gen_series(R,n,s);
  std::vector<VD>dbuf(6,VD(n+2,0));std::vector<VI>ibuf(6,VI(n+2,0));double cell[8];int cellOf=0;(void)cell;(void)cellOf;
  uint64_t sig=0;
  for(int k=0;k<K;k++){Model&m=M[k];const Fn&f=R.p(.6)?f0:FNS[R.in(0,NFN-1)];m.A=new AbsHold(f);if(m.A->rc){violate(f.name,"alloc","rc=%d",m.A->rc);return;}
    m.in.assign(f.nIn,nullptr);m.out.assign(f.nOut,nullptr);for(int j=0;j<f.nOpt;j++)m.o[j]=f.opt[j].def;int pos=0;for(unsigned j=0;j<m.A->fi->nbInput;j++){const TA_InputParameterInfo*ii=nullptr;TA_GetInputParameterInfo(m.A->h,j,&ii);int c=ii->type==TA_Input_Price?__builtin_popcount(ii->flags&0x3f):1;m.inPos.push_back(pos);m.inCnt.push_back(c);pos+=c;m.inSet.push_back(false);}
    if(pos!=f.nIn){violate(f.name,"input-count","abstract inputs name %d arrays instead of %d",pos,f.nIn);return;}}
  static const unsigned badIdx[]={3,4,8,31,32,33,64,1000,0x7fffffff,0x80000000u,0xffffffffu};
  int steps=R.in(10,60);bool bad=false;std::string trace;
  auto chk=[&](const Fn&f,const char*what,int rc,int want){stat_add("misuse_calls");if(rc!=want){violate(f.name,"misuse-rc","%s returned %d, expected %d (after %s)",what,rc,want,trace.substr(trace.size()>200?trace.size()-200:0).c_str());bad=true;}};
  for(int s=0;s<steps&&!bad;s++){
    Model&m=M[R.in(0,K-1)];const Fn&f=*m.A->f;TA_ParamHolder*p=m.A->p;unsigned nIn=m.A->fi->nbInput;int op=R.in(0,27);char tb[24];snprintf(tb,24,"%d:%d ",(int)(&m-&M[0]),op);trace+=tb;sig=mix64(sig^op);prog(f.name,g_curcase,tb);
    unsigned bi=badIdx[R.in(0,10)];
    switch(op){
    case 0:case 1:case 2:{ /* set an input properly */
      int j=R.in(0,(int)nIn-1);std::vector<const double*>v;ins_of(f,ser[R.in(0,2)],v);m.A->rc=0;m.A->setIn(j,v.data(),m.inPos[j]);chk(f,"set input",m.A->rc,0);for(int c=0;c<m.inCnt[j];c++)m.in[m.inPos[j]+c]=v[m.inPos[j]+c];m.inSet[j]=true;break;}
    case 3:case 4:{int k=R.in(0,f.nOut-1);int w=R.in(0,5);m.out[k]=f.outInt[k]?(void*)ibuf[w].data():(void*)dbuf[w].data();
      /* outputs of one holder must not overlap: give each its own buffer */ for(int q=0;q<f.nOut;q++)if(q!=k&&m.out[q]==m.out[k])m.out[k]=nullptr;
      if(!m.out[k]){m.out[k]=f.outInt[k]?(void*)ibuf[k].data():(void*)dbuf[k].data();bool cl=false;for(int q=0;q<f.nOut;q++)if(q!=k&&m.out[q]==m.out[k])cl=true;if(cl){for(int w2=0;w2<6;w2++){void*c=f.outInt[k]?(void*)ibuf[w2].data():(void*)dbuf[w2].data();bool used=false;for(int q=0;q<f.nOut;q++)if(q!=k&&m.out[q]==c)used=true;if(!used){m.out[k]=c;break;}}}}
      m.A->rc=0;m.A->setOut(k,m.out[k]);chk(f,"set output",m.A->rc,0);break;}
    case 5:if(f.nOpt){int j=R.in(0,f.nOpt-1);double v[8];gen_opts(R,f,v,12);double keep=m.o[j];m.o[j]=v[j];if(is(f,"MAVP")){double r[8];resolve_opts(f,m.o,r);if(r[0]>r[1]){m.o[j]=keep;break;}}m.A->rc=0;m.A->setOpt(j,m.o[j]);chk(f,"set optional",m.A->rc,0);}break;
    case 6:{int j=R.in(0,(int)nIn-1);bool price=m.inCnt[j]>1||strchr("OHLCV",f.kinds[m.inPos[j]]);int iv[2]={1,2};double dv[2]={1,2};   /* wrong type */
      if(price)chk(f,"real pointer for a price input",TA_SetInputParamRealPtr(p,j,dv),TA_INVALID_PARAM_HOLDER_TYPE);else chk(f,"price pointers for a real input",TA_SetInputParamPricePtr(p,j,dv,dv,dv,dv,dv,dv),TA_INVALID_PARAM_HOLDER_TYPE);
      chk(f,"integer pointer for a real or price input",TA_SetInputParamIntegerPtr(p,j,iv),TA_INVALID_PARAM_HOLDER_TYPE);break;}
    case 7:{double dv[2]={1,2};int iv[2]={1,2};unsigned x=R.p(.5)?nIn:bi<nIn?nIn:bi;chk(f,"input index out of range (real)",TA_SetInputParamRealPtr(p,x,dv),TA_BAD_PARAM);chk(f,"input index out of range (price)",TA_SetInputParamPricePtr(p,x,dv,dv,dv,dv,dv,dv),TA_BAD_PARAM);chk(f,"input index out of range (integer)",TA_SetInputParamIntegerPtr(p,x,iv),TA_BAD_PARAM);break;}
    case 8:{int j=R.in(0,(int)nIn-1);bool price=m.inCnt[j]>1||strchr("OHLCV",f.kinds[m.inPos[j]]);
      if(!price)chk(f,"NULL real input",TA_SetInputParamRealPtr(p,j,nullptr),TA_BAD_PARAM);
      else{const double*q[6]={0,0,0,0,0,0};const TA_InputParameterInfo*ii=nullptr;TA_GetInputParameterInfo(m.A->h,j,&ii);const Series&S=ser[R.in(0,2)];const double*full[6]={S.O.data(),S.H.data(),S.L.data(),S.C.data(),S.V.data(),S.r.data()};
        std::vector<int>need;for(int b=0;b<6;b++){if(ii->flags&(1<<b))need.push_back(b);q[b]=full[b];}q[need[R.in(0,(int)need.size()-1)]]=nullptr;
        chk(f,"a required price component NULL",TA_SetInputParamPricePtr(p,j,q[0],q[1],q[2],q[3],q[4],q[5]),TA_BAD_PARAM);}
      break;}
    case 9:{double dv[2]={1,2};int iv[2]={1,2};chk(f,"NULL holder",TA_SetInputParamRealPtr(nullptr,0,dv),TA_BAD_PARAM);chk(f,"NULL holder",TA_SetInputParamIntegerPtr(nullptr,0,iv),TA_BAD_PARAM);chk(f,"NULL holder",TA_SetInputParamPricePtr(nullptr,0,dv,dv,dv,dv,dv,dv),TA_BAD_PARAM);
      chk(f,"NULL holder",TA_SetOptInputParamInteger(nullptr,0,3),TA_BAD_PARAM);chk(f,"NULL holder",TA_SetOptInputParamReal(nullptr,0,3),TA_BAD_PARAM);chk(f,"NULL holder",TA_SetOutputParamRealPtr(nullptr,0,dv),TA_BAD_PARAM);chk(f,"NULL holder",TA_SetOutputParamIntegerPtr(nullptr,0,iv),TA_BAD_PARAM);
      int a,b;chk(f,"NULL holder",TA_CallFunc(nullptr,0,1,&a,&b),TA_BAD_PARAM);chk(f,"NULL holder",TA_GetLookback(nullptr,&a),TA_BAD_PARAM);chk(f,"NULL lookback",TA_GetLookback(p,nullptr),TA_BAD_PARAM);chk(f,"NULL range",TA_CallFunc(p,0,1,nullptr,&b),TA_BAD_PARAM);chk(f,"NULL range",TA_CallFunc(p,0,1,&a,nullptr),TA_BAD_PARAM);
      chk(f,"NULL holder",TA_InitNewState(nullptr),TA_BAD_PARAM);chk(f,"NULL holder",TA_CallFuncState(nullptr),TA_BAD_PARAM);chk(f,"NULL holder",TA_CallFuncBatchState(nullptr,0,1,&a,&b),TA_BAD_PARAM);chk(f,"NULL range",TA_CallFuncBatchState(p,0,1,nullptr,&b),TA_BAD_PARAM);chk(f,"NULL range",TA_CallFuncBatchState(p,0,1,&a,nullptr),TA_BAD_PARAM);chk(f,"NULL holder",TA_FreeState(nullptr),TA_BAD_PARAM);
      chk(f,"NULL holder",TA_SaveState(nullptr,stdout),TA_BAD_PARAM);chk(f,"NULL holder",TA_LoadState(nullptr,stdin),TA_BAD_PARAM);void*v;chk(f,"NULL holder",TA_GetParamStatePtr(nullptr,&v),TA_BAD_PARAM);chk(f,"NULL state",TA_GetParamStatePtr(p,nullptr),TA_BAD_PARAM);chk(f,"NULL holder",TA_SetParamStatePtr(nullptr,nullptr),TA_BAD_PARAM);chk(f,"free NULL",TA_ParamHolderFree(nullptr),0);break;}
    case 10:if(f.nOpt){int j=R.in(0,f.nOpt-1);if(f.opt[j].type==0)chk(f,"integer for a real optional",TA_SetOptInputParamInteger(p,j,7),TA_INVALID_PARAM_HOLDER_TYPE);else chk(f,"real for an integer optional",TA_SetOptInputParamReal(p,j,7.5),TA_INVALID_PARAM_HOLDER_TYPE);}break;
    case 11:{unsigned x=R.p(.5)?(unsigned)f.nOpt:bi<(unsigned)f.nOpt?f.nOpt:bi;chk(f,"optional index out of range",TA_SetOptInputParamInteger(p,x,5),TA_BAD_PARAM);chk(f,"optional index out of range",TA_SetOptInputParamReal(p,x,5),TA_BAD_PARAM);break;}
    case 12:{int k=R.in(0,f.nOut-1);if(f.outInt[k]){chk(f,"real array for an integer output",TA_SetOutputParamRealPtr(p,k,dbuf[0].data()),TA_INVALID_PARAM_HOLDER_TYPE);chk(f,"NULL output",TA_SetOutputParamIntegerPtr(p,k,nullptr),TA_BAD_PARAM);}else{chk(f,"integer array for a real output",TA_SetOutputParamIntegerPtr(p,k,ibuf[0].data()),TA_INVALID_PARAM_HOLDER_TYPE);chk(f,"NULL output",TA_SetOutputParamRealPtr(p,k,nullptr),TA_BAD_PARAM);}break;}
    case 13:{unsigned x=R.p(.5)?(unsigned)f.nOut:bi<(unsigned)f.nOut?f.nOut:bi;chk(f,"output index out of range",TA_SetOutputParamRealPtr(p,x,dbuf[0].data()),TA_BAD_PARAM);chk(f,"output index out of range",TA_SetOutputParamIntegerPtr(p,x,ibuf[0].data()),TA_BAD_PARAM);break;}
    case 14:case 15:case 16:{ /* call */
      int e=R.in(0,n-1),st=R.in(0,e);if(R.p(.5)){st=0;e=n-1;}if(R.p(.1))st=-R.in(1,5);int b=-9,nb=-9;for(auto&v:dbuf)std::fill(v.begin(),v.end(),-3.25e90);for(auto&v:ibuf)std::fill(v.begin(),v.end(),-77);
      int rc=TA_CallFunc(p,st,e,&b,&nb);
      if(!m.allIn())chk(f,"call with an input missing",rc,TA_INPUT_NOT_ALL_INITIALIZE);else if(!m.allOut())chk(f,"call with an output missing",rc,TA_OUTPUT_NOT_ALL_INITIALIZE);
      else{Buf D(f,n+2);for(int k=0;k<f.nOut;k++){if(f.outInt[k])D.v[k].assign(n+2,-77);else D.d[k].assign(n+2,-3.25e90);}for(int k=0;k<f.nOut;k++)D.p[k]=f.outInt[k]?(void*)D.v[k].data():(void*)D.d[k].data();
        int b2=-9,n2=-9;int want=f.batch(st,e,m.in.data(),m.o,&b2,&n2,D.p);chk(f,"completed call",rc,want);stat_add("completed_calls");
        if(!bad&&(b!=b2||nb!=n2)){violate(f.name,"misuse-result","after refused calls the range is %d/%d instead of %d/%d (%s)",b,nb,b2,n2,trace.c_str());bad=true;}
        for(int k=0;k<f.nOut&&!bad;k++)for(int i=0;i<n+2;i++){bool ok=f.outInt[k]?((int*)m.out[k])[i]==D.v[k][i]:(same_bits(((double*)m.out[k])[i],D.d[k][i])||(isnan(((double*)m.out[k])[i])&&isnan(D.d[k][i])));if(!ok){violate(f.name,"misuse-result","after refused calls out#%d[%d] differs from the direct call (%s) opts:%s",k,i,trace.c_str(),opts_str(f,m.o).c_str());bad=true;break;}}
        if(!bad){size_t touched=0;for(auto&v:dbuf)if(v[0]!=-3.25e90||v[n/2]!=-3.25e90)touched++;for(auto&v:ibuf)if(v[0]!=-77||v[n/2]!=-77)touched++;if(touched>(size_t)f.nOut){violate(f.name,"misuse-result","the call wrote to %zu arrays for %d outputs",touched,f.nOut);bad=true;}}}
      if(!bad&&rc&&rc!=0)for(auto&v:dbuf)for(double d:v)if(d!=-3.25e90){violate(f.name,"refused-writes","a refused call (rc=%d) wrote an output",rc);bad=true;break;}
      break;}
    case 17:{int l=-9;chk(f,"lookback",TA_GetLookback(p,&l),0);int w=f.lookback(m.o);if(l!=w){violate(f.name,"misuse-result","lookback %d instead of %d (%s)",l,w,trace.c_str());bad=true;}break;}
    case 18:if(!m.hasState){chk(f,"init state",TA_InitNewState(p),0);memcpy(m.so,m.o,sizeof m.so);int r=f.sinit(&m.direct,m.o);if(r){violate(f.name,"init","rc=%d",r);bad=true;}m.hasState=true;}
      else{char*mb=nullptr;size_t ml=0;FILE*F=open_memstream(&mb,&ml);f.ssave(m.direct,F);fclose(F);F=fmemopen(mb,ml?ml:1,"rb");chk(f,"load over a live state",TA_LoadState(p,F),TA_BAD_PARAM);fclose(F);free(mb);}break;
    case 19:case 20:{Buf D(f,1);int rc=TA_CallFuncState(p);
      if(!m.allIn())chk(f,"step with an input missing",rc,TA_INPUT_NOT_ALL_INITIALIZE);else if(!m.allOut())chk(f,"step with an output missing",rc,TA_OUTPUT_NOT_ALL_INITIALIZE);else if(!m.hasState)chk(f,"step without a state",rc,TA_BAD_PARAM);
      else{double x[5];for(int j=0;j<f.nIn;j++)x[j]=m.in[j][0];int w=f.sstep(m.direct,x,D.p);chk(f,"step",rc,w);stat_add("completed_steps");if(!bad&&!w)for(int k=0;k<f.nOut;k++){bool ok=f.outInt[k]?*(int*)m.out[k]==D.v[k][0]:(same_bits(*(double*)m.out[k],D.d[k][0])||(isnan(*(double*)m.out[k])&&isnan(D.d[k][0])));if(!ok){violate(f.name,"misuse-result","step output #%d differs from the direct stream (%s)",k,trace.c_str());bad=true;}}}
      break;}
    case 21:{chk(f,"free state",TA_FreeState(p),0);if(m.hasState){f.sfree(&m.direct);m.hasState=false;}void*v=(void*)8;chk(f,"get state",TA_GetParamStatePtr(p,&v),0);if(v){violate(f.name,"misuse-result","state pointer set after TA_FreeState");bad=true;}break;}
    case 22:{ /* names, tables, handles */
      const TA_FuncHandle*h=(const TA_FuncHandle*)8;static const char*bn[]={"NOSUCH","sma","SMA ","ZZZ","_","1","@","SM","SMAA"," SMA","\xff","\x80zz","Q","TA_SMA","CDL"};const char*nm=bn[R.in(0,14)];chk(f,"unknown name",TA_GetFuncHandle(nm,&h),TA_FUNC_NOT_FOUND);if(h){violate(f.name,"misuse-result","handle set for unknown name \"%s\"",nm);bad=true;}
      {std::string q=f.name;size_t L=q.size();switch(R.in(0,6)){case 0:q.resize(R.in(1,(int)L));break;case 1:q+=(char)R.in(33,126);break;case 2:q[R.in(0,(int)L-1)]=(char)R.in(33,126);break;case 3:q[R.in(0,(int)L-1)]^=32;break;case 4:q+=q;break;case 5:q.insert(R.in(0,(int)L),1,(char)R.in(33,126));break;default:q+=std::string(R.in(1,3000),'A');}
        bool known=false;for(int i=0;i<NFN;i++)if(q==FNS[i].name)known=true;const TA_FuncHandle*h2=(const TA_FuncHandle*)8;int rc=TA_GetFuncHandle(q.c_str(),&h2);stat_add("near_names");
        if(known?rc!=0||!h2:rc!=TA_FUNC_NOT_FOUND||h2){violate(f.name,"misuse-rc","TA_GetFuncHandle(\"%.40s\") returned %d",q.c_str(),rc);bad=true;}
        std::string g=f.group;switch(R.in(0,3)){case 0:g.resize(R.in(1,(int)g.size()-1));break;case 1:g+=(char)R.in(33,126);break;case 2:g[R.in(0,(int)g.size()-1)]^=32;break;default:g[R.in(0,(int)g.size()-1)]='#';}
        TA_StringTable*gt=(TA_StringTable*)8;rc=TA_FuncTableAlloc(g.c_str(),&gt);if(rc!=TA_GROUP_NOT_FOUND||gt){violate(f.name,"misuse-rc","TA_FuncTableAlloc(\"%.40s\") returned %d",g.c_str(),rc);bad=true;}}
      chk(f,"empty name",TA_GetFuncHandle("",&h),TA_BAD_PARAM);chk(f,"NULL name",TA_GetFuncHandle(nullptr,&h),TA_BAD_PARAM);chk(f,"NULL handle",TA_GetFuncHandle("SMA",nullptr),TA_BAD_PARAM);
      TA_StringTable*t=(TA_StringTable*)8;static const char*bg[]={"No Such Group","","overlap studies","Overlap Studies "};chk(f,"unknown group",TA_FuncTableAlloc(bg[R.in(0,3)],&t),TA_GROUP_NOT_FOUND);if(t){violate(f.name,"misuse-result","table set for an unknown group");bad=true;}
      chk(f,"NULL group",TA_FuncTableAlloc(nullptr,&t),TA_BAD_PARAM);chk(f,"NULL table",TA_FuncTableAlloc("Overlap Studies",nullptr),TA_BAD_PARAM);chk(f,"NULL table",TA_GroupTableAlloc(nullptr),TA_BAD_PARAM);chk(f,"free NULL table",TA_GroupTableFree(nullptr),0);chk(f,"free NULL table",TA_FuncTableFree(nullptr),0);
      TA_StringTable*a=nullptr,*b=nullptr;TA_GroupTableAlloc(&a);TA_FuncTableAlloc("Overlap Studies",&b);if(a&&b){chk(f,"group table freed as function table",TA_FuncTableFree(a),TA_BAD_OBJECT);chk(f,"function table freed as group table",TA_GroupTableFree(b),TA_BAD_OBJECT);}chk(f,"free group table",TA_GroupTableFree(a),0);chk(f,"free function table",TA_FuncTableFree(b),0);break;}
    case 24:case 25:{ /* feed a block */
      int e=R.in(0,n-1),st=R.in(0,e);int b=-9,nb=-9;for(auto&v:dbuf)std::fill(v.begin(),v.end(),-3.25e90);for(auto&v:ibuf)std::fill(v.begin(),v.end(),-77);int rc=TA_CallFuncBatchState(p,st,e,&b,&nb);
      if(!m.allIn())chk(f,"block with an input missing",rc,TA_INPUT_NOT_ALL_INITIALIZE);else if(!m.allOut())chk(f,"block with an output missing",rc,TA_OUTPUT_NOT_ALL_INITIALIZE);else if(!m.hasState)chk(f,"block without a state",rc,TA_BAD_PARAM);
      else{Buf D(f,n+2);for(int k=0;k<f.nOut;k++){if(f.outInt[k])D.v[k].assign(n+2,-77);else D.d[k].assign(n+2,-3.25e90);D.p[k]=f.outInt[k]?(void*)D.v[k].data():(void*)D.d[k].data();}
        int b2=-9,n2=-9;int w=f.sbatch(m.direct,st,e,m.in.data(),&b2,&n2,D.p);chk(f,"block",rc,w);stat_add("completed_blocks");if(!bad&&(b!=b2||nb!=n2)){violate(f.name,"misuse-result","the block's range is %d/%d instead of %d/%d (%s)",b,nb,b2,n2,trace.c_str());bad=true;}
        for(int k=0;k<f.nOut&&!bad;k++)for(int i=0;i<n+2;i++){bool ok=f.outInt[k]?((int*)m.out[k])[i]==D.v[k][i]:(same_bits(((double*)m.out[k])[i],D.d[k][i])||(isnan(((double*)m.out[k])[i])&&isnan(D.d[k][i])));if(!ok){violate(f.name,"misuse-result","block out#%d[%d] differs from the direct stream (%s)",k,i,trace.c_str());bad=true;break;}}}
      break;}
    case 26:if(m.hasState){ /* save, free, load */
      char*mb=nullptr,*mb2=nullptr;size_t ml=0,ml2=0;FILE*F=open_memstream(&mb,&ml);chk(f,"save state",TA_SaveState(p,F),0);fclose(F);F=open_memstream(&mb2,&ml2);f.ssave(m.direct,F);fclose(F);chk(f,"free state",TA_FreeState(p),0);
      if(R.p(.5)){F=fmemopen(mb2,ml2,"rb");stat_add("foreign_files");}else F=fmemopen(mb,ml,"rb");   /* a file written by either interface serves the other */
      chk(f,"load state",TA_LoadState(p,F),0);fclose(F);stat_add("reloaded_states");if(R.p(.5)){f.sfree(&m.direct);F=fmemopen(mb,ml,"rb");int r=f.sload(&m.direct,F);fclose(F);chk(f,"load state directly",r,0);}free(mb);free(mb2);}
      break;
    case 27:if(m.hasState){ /* hand the state over: take it out, or swap the holder's with the directly driven one */
      void*v=nullptr;chk(f,"get state",TA_GetParamStatePtr(p,&v),0);if(!v){violate(f.name,"misuse-result","no state pointer while a state is live (%s)",trace.c_str());bad=true;break;}
      if(R.p(.5)){chk(f,"set state",TA_SetParamStatePtr(p,m.direct),0);m.direct=v;void*u=nullptr;TA_GetParamStatePtr(p,&u);if(u==v){violate(f.name,"misuse-result","the state pointer set is not the one in use (%s)",trace.c_str());bad=true;}stat_add("swapped_states");}
      else{chk(f,"clear state",TA_SetParamStatePtr(p,nullptr),0);if(m.allIn()&&m.allOut())chk(f,"step without a state",TA_CallFuncState(p),TA_BAD_PARAM);chk(f,"set state",TA_SetParamStatePtr(p,v),0);}}
      break;
    default:{ /* foreign objects in place of handles and holders */
      static unsigned int fake[64];for(auto&x:fake)x=0x12345678;const TA_FuncInfo*fi=(const TA_FuncInfo*)8;chk(f,"foreign handle",TA_GetFuncInfo(fake,&fi),TA_INVALID_HANDLE);const TA_InputParameterInfo*a;const TA_OptInputParameterInfo*b;const TA_OutputParameterInfo*c;
      chk(f,"foreign handle",TA_GetInputParameterInfo(fake,0,&a),TA_INVALID_HANDLE);chk(f,"foreign handle",TA_GetOptInputParameterInfo(fake,0,&b),TA_INVALID_HANDLE);chk(f,"foreign handle",TA_GetOutputParameterInfo(fake,0,&c),TA_INVALID_HANDLE);chk(f,"foreign handle",TA_GetStructParameterInfo(fake,0,&a),TA_INVALID_HANDLE);
      chk(f,"NULL handle",TA_GetStructParameterInfo(nullptr,0,&a),TA_BAD_PARAM);chk(f,"NULL handle",TA_GetInputParameterInfo(nullptr,0,&a),TA_BAD_PARAM);chk(f,"NULL handle",TA_GetOptInputParameterInfo(nullptr,0,&b),TA_BAD_PARAM);chk(f,"NULL handle",TA_GetOutputParameterInfo(nullptr,0,&c),TA_BAD_PARAM);chk(f,"NULL result",TA_GetStructParameterInfo(m.A->h,0,nullptr),TA_BAD_PARAM);TA_ParamHolder*q=(TA_ParamHolder*)8;chk(f,"foreign handle",TA_ParamHolderAlloc(fake,&q),TA_INVALID_HANDLE);if(q){violate(f.name,"misuse-result","holder set for a foreign handle");bad=true;}
      chk(f,"NULL handle",TA_GetFuncInfo(nullptr,&fi),TA_BAD_PARAM);chk(f,"NULL handle",TA_ParamHolderAlloc(nullptr,&q),TA_BAD_PARAM);chk(f,"NULL result",TA_GetFuncInfo(m.A->h,nullptr),TA_BAD_PARAM);chk(f,"NULL result",TA_ParamHolderAlloc(m.A->h,nullptr),TA_BAD_PARAM);chk(f,"NULL result",TA_GetInputParameterInfo(m.A->h,0,nullptr),TA_BAD_PARAM);chk(f,"NULL result",TA_GetOutputParameterInfo(m.A->h,0,nullptr),TA_BAD_PARAM);chk(f,"NULL result",TA_GetOptInputParameterInfo(m.A->h,0,nullptr),TA_BAD_PARAM);
      TA_ParamHolder fh;static unsigned int priv[64];for(auto&x:priv)x=0x12345678;fh.hiddenData=priv;double dv[2]={1,2};int x1,x2;chk(f,"foreign holder",TA_SetInputParamRealPtr(&fh,0,dv),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_SetOptInputParamInteger(&fh,0,3),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_SetOptInputParamReal(&fh,0,3),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_SetOutputParamRealPtr(&fh,0,dv),TA_INVALID_PARAM_HOLDER);
      chk(f,"foreign holder",TA_CallFunc(&fh,0,1,&x1,&x2),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_GetLookback(&fh,&x1),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_ParamHolderFree(&fh),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_InitNewState(&fh),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_CallFuncState(&fh),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_FreeState(&fh),TA_INVALID_PARAM_HOLDER);
      int iv[2]={1,2};void*sp=(void*)8;chk(f,"foreign holder",TA_SetInputParamIntegerPtr(&fh,0,iv),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_SetInputParamPricePtr(&fh,0,dv,dv,dv,dv,dv,dv),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_SetOutputParamIntegerPtr(&fh,0,iv),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_CallFuncBatchState(&fh,0,1,&x1,&x2),TA_INVALID_PARAM_HOLDER);
      chk(f,"foreign holder",TA_SaveState(&fh,stdout),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_LoadState(&fh,stdin),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_GetParamStatePtr(&fh,&sp),TA_INVALID_PARAM_HOLDER);chk(f,"foreign holder",TA_SetParamStatePtr(&fh,nullptr),TA_INVALID_PARAM_HOLDER);
      TA_StateFunc sf=nullptr;TA_BatchStateFunc bf=nullptr;TA_StateIOFunc iof=nullptr;const TA_FuncInfo*mf=m.A->fi;
      chk(f,"NULL function information",TA_GetInitNewStateFuncPtr(nullptr,&sf),TA_INVALID_HANDLE);chk(f,"NULL function information",TA_GetCallFuncStateFuncPtr(nullptr,&sf),TA_INVALID_HANDLE);chk(f,"NULL function information",TA_GetFreeStateFuncPtr(nullptr,&sf),TA_INVALID_HANDLE);chk(f,"NULL function information",TA_GetCallFuncBatchStateFuncPtr(nullptr,&bf),TA_INVALID_HANDLE);chk(f,"NULL function information",TA_GetSaveStateFuncPtr(nullptr,&iof),TA_INVALID_HANDLE);chk(f,"NULL function information",TA_GetLoadStateFuncPtr(nullptr,&iof),TA_INVALID_HANDLE);
      chk(f,"NULL result",TA_GetInitNewStateFuncPtr(mf,nullptr),TA_BAD_PARAM);chk(f,"NULL result",TA_GetCallFuncStateFuncPtr(mf,nullptr),TA_BAD_PARAM);chk(f,"NULL result",TA_GetFreeStateFuncPtr(mf,nullptr),TA_BAD_PARAM);chk(f,"NULL result",TA_GetCallFuncBatchStateFuncPtr(mf,nullptr),TA_BAD_PARAM);chk(f,"NULL result",TA_GetSaveStateFuncPtr(mf,nullptr),TA_BAD_PARAM);chk(f,"NULL result",TA_GetLoadStateFuncPtr(mf,nullptr),TA_BAD_PARAM);}
    }
  }
  seen(sig,true);stat_add("sequences");if(R.p(.002))sample("%d holders around %s, operations (holder:operation) %s",K,f0.name,trace.substr(0,160).c_str());
  for(auto&m:M){if(m.hasState){TA_FreeState(m.A->p);m.A->f->sfree(&m.direct);}delete m.A;}
}
PROPERTY(C15){each_case("C15",60,[](const Fn&f,Rng&R,long){c15_case(f,R);});}
