/* C16: unstable periods.  C23: library-wide settings as a register file. */
#include "core.h"
#include "ref.h"
uint64_t case_hash(const Fn&f,const double*o,int s,int e,const Series&S);
bool var_degenerate(const Fn&f,const double*o,const double*const*in,int n,int bar);
void cdl_probe(const Fn&f,Rng&R,const int*rt,const int*per,const double*fac,const std::string&log);
namespace {
const int NU=25;
static int ma_id(int ty,int p){if(p<=1)return -1;switch(ty){case 1:case 3:case 4:return TA_FUNC_UNST_EMA;case 6:return TA_FUNC_UNST_KAMA;case 7:return TA_FUNC_UNST_MAMA;case 8:return TA_FUNC_UNST_T3;case 9:return TA_FUNC_UNST_WLMA;default:return -1;}}
static int ma_mult(int ty,int p){if(p<=1)return 0;switch(ty){case 3:return 2;case 4:return 3;case 1:case 6:case 7:case 8:case 9:return 1;default:return 0;}}
static int own_id(const Fn&f){static const struct{const char*n;int id;}T[]={{"ADX",TA_FUNC_UNST_ADX},{"ADXR",TA_FUNC_UNST_ADX},{"ATR",TA_FUNC_UNST_ATR},{"CMO",TA_FUNC_UNST_CMO},{"DX",TA_FUNC_UNST_DX},{"EMA",TA_FUNC_UNST_EMA},{"HT_DCPERIOD",TA_FUNC_UNST_HT_DCPERIOD},{"HT_DCPHASE",TA_FUNC_UNST_HT_DCPHASE},{"HT_PHASOR",TA_FUNC_UNST_HT_PHASOR},{"HT_SINE",TA_FUNC_UNST_HT_SINE},{"HT_TRENDLINE",TA_FUNC_UNST_HT_TRENDLINE},{"HT_TRENDMODE",TA_FUNC_UNST_HT_TRENDMODE},{"IMI",TA_FUNC_UNST_IMI},{"KAMA",TA_FUNC_UNST_KAMA},{"MAMA",TA_FUNC_UNST_MAMA},{"MFI",TA_FUNC_UNST_MFI},{"MINUS_DI",TA_FUNC_UNST_MINUS_DI},{"MINUS_DM",TA_FUNC_UNST_MINUS_DM},{"NATR",TA_FUNC_UNST_NATR},{"PLUS_DI",TA_FUNC_UNST_PLUS_DI},{"PLUS_DM",TA_FUNC_UNST_PLUS_DM},{"RSI",TA_FUNC_UNST_RSI},{"T3",TA_FUNC_UNST_T3},{"WLMA",TA_FUNC_UNST_WLMA},{"ADOSC",TA_FUNC_UNST_EMA}};
  for(auto&t:T)if(!strcmp(t.n,f.name))return t.id;return -1;}
/* what a function built on recursive parts depends on: (id, how many bars one unit adds), and whether
   setting only that id moves the output exactly to the bars the function starts u bars earlier */
struct Dep{int id,mult;bool shift;};
struct Deps{std::vector<Dep> d;bool mx=false;int ga=0,gb=0,gs=0; /* MACDEXT: lookback max of two averages plus signal */
  bool has(int id)const{for(auto&x:d)if(x.id==id)return true;return false;}
  void add(int id,int m,bool sh){if(id<0)return;for(auto&x:d)if(x.id==id){x.mult+=m;x.shift=false;return;}d.push_back({id,m,sh});}};
static Deps deps(const Fn&f,const double*o){Deps D;int id=own_id(f);
  if(id>=0){bool dm=is(f,"PLUS_DI")||is(f,"MINUS_DI")||is(f,"PLUS_DM")||is(f,"MINUS_DM");if(dm&&o[0]<=1)return D;D.add(id,1,true);return D;}
  auto ma=[&](int ty,int p){D.add(ma_id(ty,p),ma_mult(ty,p),ma_mult(ty,p)==1);};
  if(is(f,"DEMA"))D.add(TA_FUNC_UNST_EMA,o[0]>1||true?2:0,false);else if(is(f,"TEMA")||is(f,"TRIX"))D.add(TA_FUNC_UNST_EMA,3,false);
  else if(is(f,"MACD")||is(f,"MACDFIX"))D.add(TA_FUNC_UNST_EMA,2,false);
  else if(is(f,"MA"))ma((int)o[1],(int)o[0]);else if(is(f,"MAVP"))ma((int)o[2],(int)o[1]);else if(is(f,"BBANDS"))ma((int)o[3],(int)o[0]);
  else if(is(f,"APO")||is(f,"PPO"))ma((int)o[2],(int)fmax(o[0],o[1]));
  else if(is(f,"STOCHF"))ma((int)o[2],(int)o[1]);
  else if(is(f,"STOCHRSI")){bool drec=ma_mult((int)o[3],(int)o[2])>0;D.add(TA_FUNC_UNST_RSI,1,!drec);ma((int)o[3],(int)o[2]);}
  else if(is(f,"STOCH")){int kt=(int)o[2],kp=(int)o[1],dt=(int)o[4],dp=(int)o[3];bool drec=ma_mult(dt,dp)>0;
    if(ma_id(kt,kp)>=0)D.add(ma_id(kt,kp),ma_mult(kt,kp),ma_mult(kt,kp)==1&&!drec);if(ma_id(dt,dp)>=0)D.add(ma_id(dt,dp),ma_mult(dt,dp),ma_mult(dt,dp)==1);}
  else if(is(f,"MACDEXT")){D.mx=true;int a=ma_id((int)o[1],(int)o[0]),b=ma_id((int)o[3],(int)o[2]),c=ma_id((int)o[5],(int)o[4]);
    if(a>=0)D.add(a,0,false);if(b>=0)D.add(b,0,false);if(c>=0)D.add(c,0,c!=a&&c!=b&&ma_mult((int)o[5],(int)o[4])==1);}
  return D;}
static int growth(const Fn&f,const double*o,const Deps&D,const Dep&d,int u){
  if(is(f,"BBANDS")){int l=TA_MA_Lookback((int)o[0],(TA_MAType)(int)o[3]),w=(int)o[0]-1;return std::max(w,l+d.mult*u)-std::max(w,l);}   /* the deviation window may be the longer one */
  if(!D.mx)return d.mult*u;
  auto lb=[&](int i){return o[i]<=1?0:TA_MA_Lookback((int)o[i],(TA_MAType)(int)o[i+1]);};auto m=[&](int i){return ma_id((int)o[i+1],(int)o[i])==d.id?ma_mult((int)o[i+1],(int)o[i])*u:0;};
  return std::max(lb(0)+m(0),lb(2)+m(2))-std::max(lb(0),lb(2))+m(4);}
struct Zero{~Zero(){TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,0);}};
static bool same(const Fn&f,const Out&a,const Out&b){if(a.rc!=b.rc||a.b!=b.b||a.n!=b.n)return false;for(int k=0;k<f.nOut;k++){if(a.iv[k]!=b.iv[k])return false;for(size_t i=0;i<a.v[k].size();i++)if(!same_bits(a.v[k][i],b.v[k][i]))return false;}return true;}
}
PROPERTY(C16){
  each_case("C16",600,[&](const Fn&f,Rng&R,long c){
    Zero z;bool ff=R.p(.3);double o[8],ro[8];gen_opts(R,f,o,R.p(.1)?80:30);resolve_opts(f,o,ro);Deps D=deps(f,ro);
    /* the registers themselves */
    {int v[NU];for(int i=0;i<NU;i++)v[i]=0;int k=R.in(0,6);std::string log;
      for(int j=0;j<k;j++){int id=R.p(.1)?-R.in(1,3):R.p(.15)?25:R.p(.1)?R.in(26,40):R.in(0,24);unsigned u=R.in(0,30);TA_RetCode rc=TA_SetUnstablePeriod((TA_FuncUnstId)id,u);char b[32];snprintf(b,32,"%d:%u,",id,u);log+=b;
        bool bad=id<0||id>25;if((rc!=TA_SUCCESS)!=bad||(bad&&rc!=TA_BAD_PARAM)){violate(f.name,"set-rc","TA_SetUnstablePeriod(%d,%u) returned %d",id,u,rc);return;}
        if(bad)stat_add("invalid_ids");else if(id==25)for(int i=0;i<NU;i++)v[i]=u;else v[id]=u;}
      for(int i=0;i<NU;i++)if((int)TA_GetUnstablePeriod((TA_FuncUnstId)i)!=v[i]){violate(f.name,"register","after %s id %d reads %u, expected %d",log.c_str(),i,TA_GetUnstablePeriod((TA_FuncUnstId)i),v[i]);return;}
      stat_add("register_reads",NU);
      if(R.p(.2)){int id=R.in(0,24);unsigned u=(unsigned)exp2(R.d(5,32)),old=v[id];if(TA_SetUnstablePeriod((TA_FuncUnstId)id,u)!=TA_SUCCESS||TA_GetUnstablePeriod((TA_FuncUnstId)id)!=u){violate(f.name,"register","id %d set to %u reads %u",id,u,TA_GetUnstablePeriod((TA_FuncUnstId)id));return;}TA_SetUnstablePeriod((TA_FuncUnstId)id,old);stat_add("large_registers");}
      /* bystanders: the same own periods with every other id at 0 */
      int lbA=f.lookback(o),n=lbA+R.in(1,70),s=R.p(.4)?R.in(0,lbA):R.in(0,n-1);Series S;gen_series(R,n,S,R.p(.7)?GRID_DYADIC:-1);std::vector<const double*>in;ins_of(f,S,in);
      if(k==0)for(int i=0;i<NU;i++){v[i]=R.in(0,20);TA_SetUnstablePeriod((TA_FuncUnstId)i,v[i]);}
      lbA=f.lookback(o);Out A=run_form(ff,f,s,n-1,in.data(),o);bool st=R.p(.3);VI ra,rb;Out sa,sb;if(st)sa=run_state(f,n,in.data(),o,&ra);
      for(int i=0;i<NU;i++)if(!D.has(i))TA_SetUnstablePeriod((TA_FuncUnstId)i,0);
      int lbB=f.lookback(o);Out B=run_form(ff,f,s,n-1,in.data(),o);if(st)sb=run_state(f,n,in.data(),o,&rb);
      seen(case_hash(f,o,s,n-1,S),A.n>0);
      if(lbA!=lbB){violate(f.name,"foreign-lookback","lookback %d with the unstable periods of other functions set (%s), %d without, opts:%s",lbA,log.c_str(),lbB,opts_str(f,o).c_str());return;}
      if(!same(f,A,B)){violate(f.name,"foreign-output","outputs change with the unstable periods of other functions (s=%d n=%d) opts:%s data:%s",s,n,opts_str(f,o).c_str(),S.tag);return;}
      if(st&&(ra!=rb||!same(f,sa,sb))){violate(f.name,"foreign-stream","streamed outputs change with the unstable periods of other functions, opts:%s data:%s",opts_str(f,o).c_str(),S.tag);return;}
      stat_add("bystander_comparisons");if(st)stat_add("bystander_streams");}
    TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,0);
    if(D.d.empty())return;
    /* one id at a time */
    const Dep&d=D.d[R.in(0,(int)D.d.size()-1)];int u=R.p(.3)?R.in(1,3):R.p(.1)?R.in(30,200):R.p(.01)?(int)exp(R.d(5.3,R.p(.1)?11.2:8)):R.in(1,30);stat_max("largest_period",u);
    int lb0=f.lookback(o),want=lb0+growth(f,ro,D,d,u);
    TA_SetUnstablePeriod((TA_FuncUnstId)d.id,u);int lbu=f.lookback(o);
    if(lbu!=want){violate(f.name,"growth","id %d period %d: lookback %d, %d without, expected %d, opts:%s",d.id,u,lbu,lb0,want,opts_str(f,o).c_str());return;}
    stat_add("lookback_growths");
    if(!d.shift||(!D.mx&&want-lb0!=u))return;
    int n=lbu+R.in(1,80),s=R.p(.5)?lbu:R.in(lbu,n-1);Series S;gen_series(R,n,S,R.p(.7)?GRID_DYADIC:-1);std::vector<const double*>in;ins_of(f,S,in);
    Out A=run_form(ff,f,s,n-1,in.data(),o);
    if(!(is(f,"APO")||is(f,"PPO"))){int q=R.in(0,s==lbu?lbu:s);if(s==lbu){Out E=run_form(ff,f,q,n-1,in.data(),o);if(!same(f,A,E)){violate(f.name,"early-start","a start at %d gives other outputs than a start at the lookback %d (unstable id %d period %d) opts:%s",q,lbu,d.id,u,opts_str(f,o).c_str());return;}}}
    TA_SetUnstablePeriod((TA_FuncUnstId)d.id,0);Out B=run_form(ff,f,s-u,n-1,in.data(),o);
    if(A.rc||B.rc||A.b!=s||A.n!=n-s||B.n!=A.n+u||B.b!=s-u){violate(f.name,"range","u=%d s=%d: rc %d/%d begin %d/%d count %d/%d opts:%s",u,s,A.rc,B.rc,A.b,B.b,A.n,B.n,opts_str(f,o).c_str());return;}
    double sc=in_scale(f,S);
    for(int k=0;k<f.nOut;k++)for(int i=0;i<A.n;i++){double x=A.at(f,k,i),y=B.at(f,k,i+u);
      if(close(x,y,1e-9,1e-11*sc)){stat_add("shifted_values");continue;}
      if(var_degenerate(f,o,in.data(),n,s+i)){stat_add("ill_conditioned");continue;}
      double wb=wobble(f,s-u,n-1,n,in.data(),o,k,i+u,1e-12,24);if(f.outInt[k]?wb>0:fabs(x-y)<=1000*wb||wb>1e-3*sc){stat_add("ill_conditioned");continue;}
      violate(f.name,"shift","out#%d bar %d with unstable period %d (id %d, start %d): %.17g, without it from bar %d: %.17g opts:%s data:%s",k,s+i,u,d.id,s,x,s-u,y,opts_str(f,o).c_str(),S.tag);return;}
    if(R.p(.003))sample("%s: id %d period %d, start %d: %d values equal those of a start at %d without it, opts:%s",f.name,d.id,u,s,A.n,s-u,opts_str(f,o).c_str());
    (void)c;
  });
}
/* ---------------- C23 ---------------- */
namespace {
struct Reg{int u[NU];int compat;int rt[11],per[11];double fac[11];};
static const int DRT[11]={0,0,0,1,0,0,2,1,1,1,1},DPER[11]={10,10,10,10,0,0,10,10,5,5,5};static const double DFAC[11]={1,3,1,.1,1,2,1,.1,.2,.6,.05};
static void reset(Reg&r){for(int&x:r.u)x=0;r.compat=0;for(int i=0;i<11;i++){r.rt[i]=DRT[i];r.per[i]=DPER[i];r.fac[i]=DFAC[i];}}
static bool metadep(const Fn&f,const double*o){
  static const char*N[]={"EMA","DEMA","TEMA","TRIX","MACD","MACDFIX","WLMA","RSI","CMO","STOCHRSI"};for(auto n:N)if(is(f,n))return true;
  auto t=[&](int ty,int p){int id=ma_id(ty,p);return id==TA_FUNC_UNST_EMA||id==TA_FUNC_UNST_WLMA;};
  if(is(f,"MA"))return t((int)o[1],(int)o[0]);if(is(f,"MAVP"))return t((int)o[2],(int)o[1]);if(is(f,"BBANDS"))return t((int)o[3],(int)o[0]);if(is(f,"APO")||is(f,"PPO"))return t((int)o[2],(int)fmax(o[0],o[1]));
  if(is(f,"STOCHF"))return t((int)o[2],(int)o[1]);if(is(f,"STOCH"))return t((int)o[2],(int)o[1])||t((int)o[4],(int)o[3]);
  if(is(f,"MACDEXT"))return t((int)o[1],(int)o[0])||t((int)o[3],(int)o[2])||t((int)o[5],(int)o[4]);return false;}
/* Metastock forms of the functions that define the mode */
static bool meta_model(const Fn&f,const double*o,const VD&x,int s,int e,const Reg&r,int&lb,VD&y){
  bool w=is(f,"WLMA");
  if(is(f,"EMA")||w){int p=(int)o[0];lb=p-1+r.u[w?TA_FUNC_UNST_WLMA:TA_FUNC_UNST_EMA];double k=w?1.0/p:2.0/(p+1),v=x[0];for(int t=0;t<=e;t++){if(t)v+=k*(x[t]-v);if(t>=std::max(s,lb))y.push_back(v);}return true;}
  bool c=is(f,"CMO");
  if(is(f,"RSI")||c){int p=(int)o[0],u=r.u[c?TA_FUNC_UNST_CMO:TA_FUNC_UNST_RSI];lb=p+u-1;int s0=std::max(s,lb);if(s0>e)return true;
    if(p==1){for(int t=s0;t<=e;t++)y.push_back(x[t]);return true;}
    auto val=[&](double g,double l){return fabs(g+l)<1e-14?0:c?100*(g-l)/(g+l):100*g/(g+l);};
    int a=s0-lb;double g=0,l=0;auto ch=[&](int t){double d=x[t]-x[t-1];(d<0?l:g)+=fabs(d);};
    if(u==0){for(int t=a+1;t<a+p;t++)ch(t);y.push_back(val(g/p,l/p));g=l=0;}   /* first value from the p-1 changes at hand */
    for(int t=a+1;t<=e;t++){if(t<=a+p){ch(t);if(t==a+p){g/=p;l/=p;}}else{g*=p-1;l*=p-1;ch(t);g/=p;l/=p;}if(t>=a+p&&t>=s0&&(int)y.size()<=t-s0)y.push_back(val(g,l));}
    return true;}
  return false;}
}
static bool readback(const Fn&f,const Reg&r,const std::string&log){
  for(int i=0;i<NU;i++)if((int)TA_GetUnstablePeriod((TA_FuncUnstId)i)!=r.u[i]){violate(f.name,"unstable-register","id %d reads %u, last set to %d, calls:%s",i,TA_GetUnstablePeriod((TA_FuncUnstId)i),r.u[i],log.c_str());return false;}
  if((int)TA_GetCompatibility()!=r.compat){violate(f.name,"compat-register","compatibility reads %d, last set to %d, calls:%s",(int)TA_GetCompatibility(),r.compat,log.c_str());return false;}
  if(TA_GetUnstablePeriod((TA_FuncUnstId)-1)||TA_GetUnstablePeriod(TA_FUNC_UNST_ALL)||TA_GetUnstablePeriod((TA_FuncUnstId)77)){violate(f.name,"invalid-read","an invalid unstable id does not read 0");return false;}
  stat_add("register_reads",NU+1);return true;}
static void canon(const Reg&r){TA_Shutdown();TA_Initialize();for(int i=0;i<NU;i++)if(r.u[i])TA_SetUnstablePeriod((TA_FuncUnstId)i,r.u[i]);if(r.compat)TA_SetCompatibility((TA_Compatibility)r.compat);
  for(int i=0;i<11;i++)TA_SetCandleSettings((TA_CandleSettingType)i,(TA_RangeType)r.rt[i],r.per[i],r.fac[i]);}
static bool probe(const Fn&f,Rng&R,Reg&r,const std::string&log){
  if(!readback(f,r,log))return false;
  if(!strncmp(f.name,"CDL",3)){cdl_probe(f,R,r.rt,r.per,r.fac,log);stat_add("candle_probes");}
  double o[8],ro[8];gen_opts(R,f,o,25);resolve_opts(f,o,ro);int lb=f.lookback(o),n=lb+R.in(1,60),s=R.p(.5)?R.in(0,lb):R.in(0,n-1);
  Series S;gen_series(R,n,S,R.p(.7)?GRID_DYADIC:-1,strncmp(f.name,"CDL",3)?-1:7);std::vector<const double*>in;ins_of(f,S,in);
  Out A=run_batch(f,s,n-1,in.data(),o);VI ra,rb;Out sa=run_state(f,n,in.data(),o,&ra);
  seen(case_hash(f,o,s,n-1,S)^mix64(hstr(log.c_str())),A.n>0);
  const ref::Model*M=ref::find(f.name);
  if(M&&!r.compat){int l=M->lb(ro);if(l!=lb){violate(f.name,"setting-lookback","lookback %d, expected %d under the settings last made, calls:%s opts:%s",lb,l,log.c_str(),opts_str(f,o).c_str());return false;}stat_add("lookback_probes");}
  if(r.compat){bool dep=metadep(f,ro);
    if(!dep){TA_SetCompatibility(TA_COMPATIBILITY_DEFAULT);int l=f.lookback(o);Out B=run_batch(f,s,n-1,in.data(),o);Out sb=run_state(f,n,in.data(),o,&rb);TA_SetCompatibility(TA_COMPATIBILITY_METASTOCK);
      if(l!=lb||!same(f,A,B)||ra!=rb||!same(f,sa,sb)){violate(f.name,"metastock-bystander","Metastock mode changes a function it is not documented for, opts:%s",opts_str(f,o).c_str());return false;}stat_add("metastock_bystanders");}
    else{int l=-1;VD y;if(meta_model(f,ro,*(const VD*)&S.r,s,n-1,r,l,y)){if(l!=lb||(int)y.size()!=A.n){violate(f.name,"metastock-lookback","lookback %d (%d outputs), expected %d (%d) in Metastock mode, opts:%s calls:%s",lb,A.n,l,(int)y.size(),opts_str(f,o).c_str(),log.c_str());return false;}
      double sc=in_scale(f,S);for(int i=0;i<A.n;i++)if(!close(A.v[0][i],y[i],1e-7,1e-9*sc)){double wb=wobble(f,s,n-1,n,in.data(),o,0,i,1e-12,24);if(fabs(A.v[0][i]-y[i])<=1000*wb)continue;violate(f.name,"metastock-value","element %d (s=%d n=%d): %.17g, by the Metastock definition %.17g opts:%s calls:%s data:%s",i,s,n,A.v[0][i],y[i],opts_str(f,o).c_str(),log.c_str(),S.tag);return false;}
      stat_add("metastock_values",A.n);}}}
  canon(r);int l2=f.lookback(o);Out B=run_batch(f,s,n-1,in.data(),o);Out sb=run_state(f,n,in.data(),o,&rb);
  if(l2!=lb||!same(f,A,B)||ra!=rb||!same(f,sa,sb)){violate(f.name,"history","the settings made by a call sequence act differently from the same settings made directly: lookback %d/%d, opts:%s calls:%s",lb,l2,opts_str(f,o).c_str(),log.c_str());return false;}
  stat_add("history_probes");return readback(f,r,log+"canonical,");}
static void retcodes(){
  static const char*N[]={"TA_SUCCESS","TA_LIB_NOT_INITIALIZE","TA_BAD_PARAM","TA_ALLOC_ERR","TA_GROUP_NOT_FOUND","TA_FUNC_NOT_FOUND","TA_INVALID_HANDLE","TA_INVALID_PARAM_HOLDER","TA_INVALID_PARAM_HOLDER_TYPE","TA_INVALID_PARAM_FUNCTION","TA_INPUT_NOT_ALL_INITIALIZE","TA_OUTPUT_NOT_ALL_INITIALIZE","TA_OUT_OF_RANGE_START_INDEX","TA_OUT_OF_RANGE_END_INDEX","TA_INVALID_LIST_TYPE","TA_BAD_OBJECT","TA_NOT_SUPPORTED","TA_NEED_MORE_DATA","TA_IO_FAILED"};
  std::vector<std::string> seen_;
  for(long c=-70000;c<=70000;c++){TA_RetCodeInfo a={nullptr,nullptr};TA_SetRetCodeInfo((TA_RetCode)c,&a);
    if(!a.enumStr||!a.infoStr||strlen(a.enumStr)>60||strlen(a.infoStr)>200||!*a.enumStr||!*a.infoStr){violate("TA_SetRetCodeInfo","text","code %ld has no description",c);return;}
    const char*w=c>=0&&c<=18?N[c]:c>=5000&&c<=5999?"TA_INTERNAL_ERROR":c==0xFFFF?nullptr:"TA_UNKNOWN_ERR";
    if(w&&strncmp(a.enumStr,w,strlen(w))){violate("TA_SetRetCodeInfo","name","code %ld is called %s, expected %s",c,a.enumStr,w);return;}
    if(c>=0&&c<=18)for(auto&s:seen_)if(s==a.enumStr){violate("TA_SetRetCodeInfo","distinct","%s names two codes",a.enumStr);return;}
    if(c>=0&&c<=18)seen_.push_back(a.enumStr);
    stat_add("retcode_descriptions");}
}
static void version(){std::string v=TA_GetVersionString(),w=std::string(TA_GetVersionMajor())+"."+TA_GetVersionMinor()+"."+TA_GetVersionBuild();
  std::string x=TA_GetVersionExtra();if(!x.empty())w+="-"+x;w+=" (";std::string d=TA_GetVersionDate(),t=TA_GetVersionTime();
  for(const char*p:{TA_GetVersionMajor(),TA_GetVersionMinor(),TA_GetVersionBuild()})for(const char*q=p;*q;q++)if(*q<'0'||*q>'9')violate("TA_GetVersion","number","part %s is not a number",p);
  if(v!=w+d+" "+t+")")violate("TA_GetVersionString","parts","version string \"%s\" is not made of its parts \"%s%s %s)\"",v.c_str(),w.c_str(),d.c_str(),t.c_str());
  stat_add("version_checks");}
PROPERTY(C23){
  if(OPT.shard==0){retcodes();version();}
  each_case("C23",400,[&](const Fn&f,Rng&R,long){
    struct Fin{~Fin(){TA_Shutdown();TA_Initialize();}}fin;
    TA_Shutdown();TA_Initialize();Reg r;reset(r);bool init=true;std::string log;int k=R.in(1,40);
    auto add=[&](const char*fmt,auto...a){char b[96];snprintf(b,96,fmt,a...);log+=b;};
    auto rc=[&](int got,int want,const char*w){if(got!=want){violate(f.name,"rc","%s returned %d, expected %d, calls:%s",w,got,want,log.c_str());return false;}return true;};
    for(int j=0;j<k;j++){stat_add("setting_calls");
      switch(R.in(0,15)){
        case 0:if(R.p(.5)){add("shutdown,");if(!rc(TA_Shutdown(),init?0:1,"TA_Shutdown"))return;init=false;stat_add("shutdowns");if(R.p(.3)){if(!rc(TA_Shutdown(),1,"second TA_Shutdown"))return;}}
               else {add("initialize,");if(!rc(TA_Initialize(),0,"TA_Initialize"))return;init=true;reset(r);if(!readback(f,r,log))return;}break;
        case 1:case 2:case 3:case 4:{int id=R.in(0,24);unsigned u=R.p(.05)?0xFFFFFFFFu:R.in(0,25);if(u>1000){TA_SetUnstablePeriod((TA_FuncUnstId)id,u);if(TA_GetUnstablePeriod((TA_FuncUnstId)id)!=u){violate(f.name,"unstable-register","id %d does not read back %u",id,u);return;}u=R.in(0,25);}
          add("unst %d=%u,",id,u);if(!rc(TA_SetUnstablePeriod((TA_FuncUnstId)id,u),0,"TA_SetUnstablePeriod"))return;r.u[id]=u;break;}
        case 5:{unsigned u=R.in(0,12);add("unst all=%u,",u);if(!rc(TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,u),0,"TA_SetUnstablePeriod(ALL)"))return;for(int&x:r.u)x=u;break;}
        case 6:{int id=R.p(.5)?-R.in(1,100):R.in(26,1000);add("unst %d bad,",id);if(!rc(TA_SetUnstablePeriod((TA_FuncUnstId)id,R.in(1,9)),2,"TA_SetUnstablePeriod(invalid id)"))return;stat_add("refused_settings");break;}
        case 7:case 8:{int m=R.in(0,1);add("compat %d,",m);if(!rc(TA_SetCompatibility((TA_Compatibility)m),0,"TA_SetCompatibility"))return;r.compat=m;break;}
        case 9:case 10:case 11:{int i=R.in(0,10),rt=R.in(0,2),p=R.in(0,12);static const double fd[]={0,.05,.1,.25,.5,1,1.5,2,3};double fc=fd[R.in(0,8)];add("candle %d=%d/%d/%g,",i,rt,p,fc);if(!rc(TA_SetCandleSettings((TA_CandleSettingType)i,(TA_RangeType)rt,p,fc),0,"TA_SetCandleSettings"))return;r.rt[i]=rt;r.per[i]=p;r.fac[i]=fc;break;}
        case 12:{int i=R.p(.5)?R.in(11,60):-R.in(1,60);add("candle %d bad,",i);if(!rc(TA_SetCandleSettings((TA_CandleSettingType)i,TA_RangeType_HighLow,3,1.0),2,"TA_SetCandleSettings(invalid type)"))return;stat_add("refused_settings");break;}
        case 13:{int i=R.in(0,10);add("restore %d,",i);if(!rc(TA_RestoreCandleDefaultSettings((TA_CandleSettingType)i),0,"TA_RestoreCandleDefaultSettings"))return;r.rt[i]=DRT[i];r.per[i]=DPER[i];r.fac[i]=DFAC[i];break;}
        case 14:{if(R.p(.5)){add("restore all,");if(!rc(TA_RestoreCandleDefaultSettings(TA_AllCandleSettings),0,"TA_RestoreCandleDefaultSettings(all)"))return;for(int i=0;i<11;i++){r.rt[i]=DRT[i];r.per[i]=DPER[i];r.fac[i]=DFAC[i];}}
          else{int i=R.p(.5)?R.in(12,60):-R.in(1,60);add("restore %d bad,",i);if(!rc(TA_RestoreCandleDefaultSettings((TA_CandleSettingType)i),2,"TA_RestoreCandleDefaultSettings(invalid type)"))return;stat_add("refused_settings");}break;}
        default:if(init&&!probe(f,R,r,log))return;}
      if(init&&R.p(.2)&&!readback(f,r,log))return;}
    if(!init){add("initialize,");if(!rc(TA_Initialize(),0,"TA_Initialize"))return;reset(r);}
    if(!probe(f,R,r,log))return;
    if(R.p(.003))sample("%s under: %s",f.name,log.c_str());
  });
}
