/* C21: bounds and ordering, identities between functions, scaling laws. */
#include "core.h"
uint64_t case_hash(const Fn&f,const double*o,int s,int e,const Series&S);
bool var_degenerate(const Fn&f,const double*o,const double*const*in,int n,int bar);
namespace {
/* averages that are weighted means of values in their window or history */
static bool convex(int t){return t==0||t==1||t==2||t==5||t==7||t==9;   /* KAMA is not, in rounded arithmetic: its efficiency ratio is a quotient of residues on flat data */}
struct Bd{double lo,hi;};
static const double INF=INFINITY;
static bool bounds(const Fn&f,const double*o,int k,Bd&b){
  auto r=[&](double l,double h){b.lo=l;b.hi=h;return true;};
  if(is(f,"RSI"))return o[0]>1&&r(0,100);if(is(f,"CMO"))return o[0]>1&&r(-100,100);
  for(auto n:{"MFI","ADX","ADXR","DX","AROON","IMI"})if(is(f,n))return r(0,100);
  if(is(f,"PLUS_DI")||is(f,"MINUS_DI"))return r(0,o[0]>1?100:1);
  if(is(f,"AROONOSC"))return r(-100,100);if(is(f,"WILLR"))return r(-100,0);if(is(f,"BOP")||is(f,"CORREL")||is(f,"HT_SINE"))return r(-1,1);
  if(is(f,"STOCHF"))return (k==0||convex((int)o[2])||o[1]<=1)&&r(0,100);if(is(f,"STOCHRSI"))return (k==0||(convex((int)o[3])&&o[3]!=6)||o[2]<=1)&&o[0]>1&&r(0,100);
  if(is(f,"STOCH"))return (convex((int)o[2])||o[1]<=1)&&(k==0||convex((int)o[4])||o[3]<=1)&&r(0,100);
  if(is(f,"ULTOSC"))return r(0,100);
  for(auto n:{"VAR","AVGDEV","TRANGE","ATR","NATR","PLUS_DM","MINUS_DM"})if(is(f,n))return r(0,INF);
  if(is(f,"STDDEV"))return o[1]>=0?r(0,INF):r(-INF,0);
  if(is(f,"HT_TRENDMODE"))return r(0,1);if(is(f,"HT_DCPERIOD"))return r(0,50);
  return false;}
/* how each output scales with prices and volumes: 99 = no law */
static void degree(const Fn&f,int k,const double*o,int&p,int&v){(void)k;
  v=0;p=99;
  for(auto n:{"SMA","EMA","WMA","WLMA","DEMA","TEMA","TRIMA","KAMA","MAMA","T3","MA","MAVP","BBANDS","ACCBANDS","MIDPOINT","MIDPRICE","SAR","HT_TRENDLINE","MOM","APO","MACD","MACDFIX","MACDEXT","TRANGE","ATR","PLUS_DM","MINUS_DM","AVGPRICE","MEDPRICE","TYPPRICE","WCLPRICE","SUM","MIN","MAX","MINMAX","STDDEV","AVGDEV","LINEARREG","LINEARREG_SLOPE","LINEARREG_INTERCEPT","TSF","HT_PHASOR","ADD","SUB"})if(is(f,n)){p=1;if(o[0]<=1&&(is(f,"PLUS_DM")||is(f,"MINUS_DM")))p=1;return;}
  if(is(f,"SAREXT")){p=o[0]==0?1:99;return;}
  if(is(f,"VAR")||is(f,"MULT")){p=2;return;}
  if(is(f,"RSI")||is(f,"CMO")){p=o[0]<=1?1:0;return;}
  if(is(f,"AD")||is(f,"ADOSC")||is(f,"PVT")||is(f,"OBV")){p=0;v=1;return;}
  if(is(f,"NATR")){p=o[0]<=1?1:0;return;}
  if(!strncmp(f.name,"CDL",3)){p=0;return;}
  for(auto n:{"DIV","MFI","ADX","ADXR","DX","AROON","IMI","PLUS_DI","MINUS_DI","AROONOSC","WILLR","BOP","CORREL","BETA","HT_SINE","HT_DCPERIOD","HT_DCPHASE","HT_TRENDMODE","STOCH","STOCHF","ULTOSC","CCI","ROC","ROCP","ROCR","ROCR100","TRIX","PPO","NVI","PVI","MININDEX","MAXINDEX","MINMAXINDEX"})if(is(f,n)){p=0;return;}
  if(is(f,"STOCHRSI")){p=o[0]<=1?0:0;return;}
}
/* functions whose zero thresholds apply to squared prices or to price times volume */
static bool squares(const Fn&f,const double*o){(void)o;for(auto n:{"VAR","STDDEV","BBANDS","CORREL","MFI","LN","LOG10","MULT"})if(is(f,n))return true;return f.kinds[0]=='r'&&!strncmp(f.name,"HT_",3);}
/* one output of a call, indexed by bar (NaN where there is none) */
struct Al{VD v;int b=-1;bool ok=false;double operator[](int t)const{return t>=0&&t<(int)v.size()?v[t]:NAN;}};
struct Caller{const Series&S;int e;
  Al get(const char*name,std::initializer_list<double> ol,int s,int k=0,std::initializer_list<const VD*> ins={}){
    const Fn*f=find_fn(name);double o[8];int j=0;for(double x:ol)o[j++]=x;std::vector<const double*> in;ins_of(*f,S,in);j=0;for(auto p:ins)in[j++]=p->data();
    Out r=run_batch(*f,s,e,in.data(),o);Al a;a.v.assign(e+1,NAN);if(r.rc)return a;a.ok=true;a.b=r.n?r.b:e+1;for(int i=0;i<r.n;i++)a.v[r.b+i]=r.at(*f,k,i);return a;}};
static const char*MAN[]={"SMA","EMA","WMA","DEMA","TEMA","TRIMA","KAMA","MAMA","T3","WLMA"};
typedef std::function<void(Caller&,const Fn&,const double*o,const Out&r,int s,int e,Rng&R)> IdF;
static double SC;static bool OKID;
/* compare output k of the call under test with `want(t)` at each bar */
static bool eqs(const Fn&f,const double*o,const Out&r,int k,const char*law,const std::function<double(int)>&want,double at,const Series&S,int s,int e,bool exact=false){
  for(int i=0;i<r.n;i++){double x=r.at(f,k,i),y=want(r.b+i);if(isnan(y)&&!isnan(x)){continue;}
    if(exact?x==y||(isnan(x)&&isnan(y)):close(x,y,1e-8,at)){stat_add("identity_values");continue;}
    std::vector<const double*>in;ins_of(f,S,in);
    if(var_degenerate(f,o,in.data(),S.n,r.b+i)){stat_add("ill_conditioned");continue;}
    if(!exact){double wb=wobble(f,s,e,S.n,in.data(),o,k,i,1e-12,24);if(f.outInt[k]?wb>0:fabs(x-y)<=1000*wb||wb>1e6*at){stat_add("ill_conditioned");continue;}}
    violate(f.name,"identity","%s: out#%d bar %d is %.17g, the identity gives %.17g (s=%d e=%d) opts:%s data:%s",law,k,r.b+i,x,y,s,e,opts_str(f,o).c_str(),S.tag);OKID=false;return false;}
  return true;}
/* identities led by function f; returns how many were evaluated */
static int identities(const Fn&f,const double*o,const Out&r,const Series&S,int s,int e,Rng&R){
  Caller c{S,e};double at=1e-9*SC;int cnt=0;std::string n=f.name;
  auto eq=[&](int k,const char*law,const std::function<double(int)>&w,double a,bool ex=false){cnt++;return eqs(f,o,r,k,law,w,a,S,s,e,ex);};
  auto ma=[&](int ty,int p,int st,const VD*x=nullptr){if(x)return c.get("MA",{(double)p,(double)ty},st,0,{x});return c.get("MA",{(double)p,(double)ty},st);};
  if(!r.n)return 0;
  if(n=="MA"){int t=(int)o[1];if(o[0]<=1){eq(0,"MA of period 1 is its input",[&](int i){return S.r[i];},0,true);return cnt;}
    Al a=t==7?c.get("MAMA",{.5,.05},s):t==8?c.get("T3",{o[0],.7},s):c.get(MAN[t],{o[0]},s);eq(0,"MA equals the named average",[&](int i){return a[i];},0,true);}
  else if(n=="MAVP"){int t=(int)o[2];std::map<int,Al> m;for(int i=r.b;i<r.b+r.n;i++){int p=(int)S.p[i];p=p<o[0]?(int)o[0]:p>o[1]?(int)o[1]:p;if(!m.count(p))m[p]=ma(t,p,r.b);}
    eq(0,"MAVP equals MA of the bar's period",[&](int i){int p=(int)S.p[i];p=p<o[0]?(int)o[0]:p>o[1]?(int)o[1]:p;return m[p][i];},at);}
  else if(n=="BBANDS"){Al m=ma((int)o[3],(int)o[0],r.b),d=c.get("STDDEV",{o[0],1},r.b);eq(1,"middle band is the average",[&](int i){return m[i];},at);eq(0,"upper band",[&](int i){return m[i]+o[1]*d[i];},1e-7*SC);eq(2,"lower band",[&](int i){return m[i]-o[2]*d[i];},1e-7*SC);}
  else if(n=="ACCBANDS"){Al m=c.get("SMA",{o[0]},s,0,{&S.C});eq(1,"middle band is the average close",[&](int i){return m[i];},at);}
  else if(n=="MIDPOINT"){Al a=c.get("MAX",{o[0]},s),b=c.get("MIN",{o[0]},s);eq(0,"(MAX+MIN)/2",[&](int i){return (a[i]+b[i])/2;},at);}
  else if(n=="MIDPRICE"){Al a=c.get("MAX",{o[0]},s,0,{&S.H}),b=c.get("MIN",{o[0]},s,0,{&S.L});eq(0,"(MAX high+MIN low)/2",[&](int i){return (a[i]+b[i])/2;},at);}
  else if(n=="MINMAX"){Al a=c.get("MIN",{o[0]},s),b=c.get("MAX",{o[0]},s);eq(0,"MIN",[&](int i){return a[i];},0,true);eq(1,"MAX",[&](int i){return b[i];},0,true);}
  else if(n=="MINMAXINDEX"){Al a=c.get("MIN",{o[0]},s),b=c.get("MAX",{o[0]},s);for(int i=0;i<r.n;i++){int p=r.iv[0][i],q=r.iv[1][i];if(p<0||q<0||p>=S.n||q>=S.n||S.r[p]!=a[r.b+i]||S.r[q]!=b[r.b+i]){violate(f.name,"identity","element %d: index %d/%d does not name the MIN/MAX value opts:%s",i,p,q,opts_str(f,o).c_str());return cnt;}stat_add("identity_values");}cnt++;}
  else if(n=="MAX"||n=="MIN"){VD m(S.n);for(int i=0;i<S.n;i++)m[i]=-S.r[i];Al a=c.get(n=="MAX"?"MIN":"MAX",{o[0]},s,0,{&m});eq(0,"MAX(x) = -MIN(-x)",[&](int i){return -a[i];},0,true);}
  else if(n=="SUM"){Al a=c.get("SMA",{o[0]},s);if(o[0]>=2)eq(0,"period * SMA",[&](int i){return a[i]*o[0];},at*o[0]);}
  else if(n=="DEMA"||n=="TEMA"){if(o[0]>=2){int q=n=="DEMA"?2:3;int l=(int)o[0]-1;Al a=c.get("EMA",{o[0]},r.b-(q-1)*l),b=c.get("EMA",{o[0]},0);(void)b;
      /* EMA of EMA over the part where the first one exists */
      auto again=[&](const Al&x,int st){VD y(x.v.begin()+(st-l),x.v.end());Caller d{S,(int)y.size()-1};Al z=d.get("EMA",{o[0]},l,0,{&y});Al w;w.v.assign(e+1,NAN);for(int i=0;i<(int)y.size();i++)w.v[st-l+i]=z.v[i];return w;};
      if(n=="DEMA"){Al b2=again(a,r.b);eq(0,"2*EMA - EMA(EMA)",[&](int i){return 2*a[i]-b2[i];},at);}
      else{Al b2=again(a,r.b-l),b3=again(b2,r.b);eq(0,"3*EMA - 3*EMA(EMA) + EMA(EMA(EMA))",[&](int i){return 3*a[i]-3*b2[i]+b3[i];},at);}}}
  else if(n=="TRIX"){if(o[0]>=1){int l=(int)o[0]-1;if(l>0){Al a=c.get("EMA",{o[0]},r.b-1-2*l);auto again=[&](const Al&x,int st){VD y(x.v.begin()+(st-l),x.v.end());Caller d{S,(int)y.size()-1};Al z=d.get("EMA",{o[0]},l,0,{&y});Al w;w.v.assign(e+1,NAN);for(int i=0;i<(int)y.size();i++)w.v[st-l+i]=z.v[i];return w;};
      Al b=again(a,r.b-1-l),d=again(b,r.b-1);eq(0,"rate of change of the triple EMA",[&](int i){return d[i-1]!=0?(d[i]/d[i-1]-1)*100:0;},1e-6);}}}
  else if(n=="MACDEXT"){if(R.p(.5)){ /* two exponential averages: the same function as MACD */ }
    int st=r.b-([&]{double x[]={o[4],o[5]};return find_fn("MA")->lookback(x);}());int a=(int)o[0],ta=(int)o[1],b=(int)o[2],tb=(int)o[3];if(b<a){std::swap(a,b);std::swap(ta,tb);}
    Al x=ma(ta,a,st),y=ma(tb,b,st);eq(0,"difference of the averages",[&](int i){return x[i]-y[i];},at);}
  else if(n=="MACD"||n=="MACDFIX"){if(n=="MACD"){Al m=c.get("MACDEXT",{o[0],1,o[1],1,o[2],1},s,0),g=c.get("MACDEXT",{o[0],1,o[1],1,o[2],1},s,1);if(o[2]>1){eq(0,"MACDEXT of exponential averages",[&](int i){return m[i];},at);eq(1,"MACDEXT signal",[&](int i){return g[i];},at);}}
    eq(2,"histogram is MACD - signal",[&](int i){return r.v[0][i-r.b]-r.v[1][i-r.b];},at);}
  else if(n=="APO"||n=="PPO"){int a=(int)fmin(o[0],o[1]),b=(int)fmax(o[0],o[1]);Al x=ma((int)o[2],a,s),y=ma((int)o[2],b,s);if(n=="APO")eq(0,"fast - slow average",[&](int i){return x[i]-y[i];},at);else eq(0,"100*(fast-slow)/slow",[&](int i){return fabs(y[i])<1e-14?0:100*(x[i]-y[i])/y[i];},1e-6);}
  else if(n=="STOCHF"){Al w=c.get("WILLR",{fmax(2,o[0])},r.b),h=c.get("MAX",{fmax(2,o[0])},r.b,0,{&S.H}),l=c.get("MIN",{fmax(2,o[0])},r.b,0,{&S.L});if(o[0]>=2)eq(0,"WILLR + 100",[&](int i){return h[i]>l[i]?w[i]+100:0;},1e-6);}
  else if(n=="STOCH"){double md[]={o[3],o[4]};int st=r.b-find_fn("MA")->lookback(md);Al d=c.get("STOCHF",{o[0],o[1],o[2]},st,1);eq(0,"slow K is fast D",[&](int i){return d[i];},1e-6);}
  else if(n=="STOCHRSI"){double mk[]={o[2],o[3]};int st=r.b-find_fn("MA")->lookback(mk)-((int)o[1]-1);Al q=c.get("RSI",{o[0]},st);if(o[0]>1){VD x=q.v;for(double&v:x)if(isnan(v))v=0;Al k=c.get("STOCHF",{o[1],o[2],o[3]},r.b,0,{&x,&x,&x}),d=c.get("STOCHF",{o[1],o[2],o[3]},r.b,1,{&x,&x,&x});
      eq(0,"STOCHF of RSI (K)",[&](int i){return k[i];},1e-6);eq(1,"STOCHF of RSI (D)",[&](int i){return d[i];},1e-6);}}
  else if(n=="CMO"){if(o[0]>1){Al q=c.get("RSI",{o[0]},s);eq(0,"2*RSI - 100",[&](int i){return q[i]==0&&r.v[0][i-r.b]==0?0:2*q[i]-100;},1e-6);}}
  else if(n=="RSI"){if(o[0]>1){VD m(S.n);for(int i=0;i<S.n;i++)m[i]=-S.r[i];Al q=c.get("RSI",{o[0]},s,0,{&m});eq(0,"RSI(-x) = 100 - RSI(x)",[&](int i){return q[i]==0&&r.v[0][i-r.b]==0?0:100-q[i];},1e-6);}}
  else if(n=="AROONOSC"){Al d=c.get("AROON",{o[0]},s,0),u=c.get("AROON",{o[0]},s,1);eq(0,"AROON up - down",[&](int i){return u[i]-d[i];},1e-9);}
  else if(n=="ROC"||n=="ROCR"||n=="ROCR100"){Al p=c.get("ROCP",{o[0]},s);int q=(int)o[0];eq(0,n=="ROC"?"100*ROCP":n=="ROCR"?"ROCP+1":"100*(ROCP+1)",[&](int i){return S.r[i-q]==0?0:n=="ROC"?100*p[i]:n=="ROCR"?p[i]+1:100*(p[i]+1);},1e-6);}
  else if(n=="MOM"){VD z(S.n);int q=(int)o[0];for(int i=q;i<S.n;i++)z[i]=S.r[i-q];Al d=c.get("SUB",{},s,0,{&S.r,&z});eq(0,"x - x[p]",[&](int i){return d[i];},at);}
  else if(n=="ADXR"){Al a=c.get("ADX",{o[0]},r.b-(int)o[0]+1);eq(0,"(ADX + ADX p-1 bars ago)/2",[&](int i){return (a[i]+a[i-(int)o[0]+1])/2;},1e-6);}
  else if(n=="DX"){if(o[0]>1){Al p=c.get("PLUS_DI",{o[0]},r.b),m=c.get("MINUS_DI",{o[0]},r.b);double prev=NAN;for(int i=0;i<r.n;i++){double x=p[r.b+i]+m[r.b+i];double w=x>1e-9?100*fabs(p[r.b+i]-m[r.b+i])/x:prev;prev=r.v[0][i];if(isnan(w)||(x<=1e-9&&x>0)){continue;}if(!close(w,r.v[0][i],1e-7,1e-6)){violate(f.name,"identity","element %d: %.17g, from the directional indicators %.17g opts:%s data:%s",i,r.v[0][i],w,opts_str(f,o).c_str(),S.tag);return cnt;}stat_add("identity_values");}cnt++;}}
  else if(n=="ULTOSC"){double q[3]={o[0],o[1],o[2]};Al z=c.get("ULTOSC",{q[2],q[0],q[1]},s);eq(0,"the order of the periods does not matter",[&](int i){return z[i];},1e-9);}
  else if(n=="NATR"){Al a=o[0]>1?c.get("ATR",{o[0]},s):c.get("TRANGE",{},s);eq(0,"100*ATR/close",[&](int i){return o[0]<=1?a[i]:fabs(S.C[i])<1e-14?0:100*a[i]/S.C[i];},1e-7);}
  else if(n=="ATR"){if(o[0]<=1){Al a=c.get("TRANGE",{},s);eq(0,"TRANGE",[&](int i){return a[i];},0,true);}}
  else if(n=="STDDEV"){Al a=c.get("VAR",{o[0],1},s);eq(0,"sqrt(VAR)*deviations",[&](int i){return a[i]<1e-14?0:sqrt(a[i])*o[1];},1e-7*SC*fabs(o[1]));}
  else if(n=="LINEARREG"||n=="TSF"){Al a=c.get("LINEARREG_INTERCEPT",{o[0]},s),b=c.get("LINEARREG_SLOPE",{o[0]},s);double q=n=="TSF"?o[0]:o[0]-1;eq(0,"intercept + slope*x",[&](int i){return a[i]+b[i]*q;},at);}
  else if(n=="LINEARREG_ANGLE"){Al b=c.get("LINEARREG_SLOPE",{o[0]},s);eq(0,"atan(slope) in degrees",[&](int i){return atan(b[i])*180/3.14159265358979323846;},1e-9);}
  else if(n=="HT_SINE"){Al p=c.get("HT_DCPHASE",{},s);eq(0,"sin(phase)",[&](int i){return sin(p[i]*3.14159265358979323846/180);},1e-9);eq(1,"sin(phase+45)",[&](int i){return sin((p[i]+45)*3.14159265358979323846/180);},1e-9);}
  else if(n=="CORREL"){Al q=c.get("CORREL",{o[0]},s,0,{&S.s,&S.r});eq(0,"symmetric in its inputs",[&](int i){return q[i];},1e-6);Al u=c.get("CORREL",{o[0]},s,0,{&S.r,&S.r});Al v=c.get("VAR",{o[0],1},s);for(int i=r.b;i<r.b+r.n;i++)if(o[0]>1&&v[i]>1e-6*SC*SC&&!close(u[i],1,0,1e-6)){violate(f.name,"identity","CORREL(x,x) is %.17g at bar %d opts:%s data:%s",u[i],i,opts_str(f,o).c_str(),S.tag);break;}cnt++;}
  else if(n=="SAREXT"){if(o[0]==0&&o[1]==0){double a=o[2],m=o[4];Al x=c.get("SAREXT",{0,0,a,a,m,a,a,m},s),y=c.get("SAR",{a,m},s);for(int i=r.b;i<r.b+r.n;i++)if(!close(fabs(x[i]),fabs(y[i]),1e-9,0)){violate(f.name,"identity","with equal long and short factors %.17g, SAR %.17g at bar %d",x[i],y[i],i);break;}cnt++;stat_add("identity_values",r.n);}}
  else if(n=="SUB"){Al a=c.get("ADD",{},s,0,{&S.r,&S.s});eq(0,"a-b = (a+b) - 2b",[&](int i){return a[i]-2*S.s[i];},at);}
  else if(n=="TYPPRICE"){Al m=c.get("MEDPRICE",{},s);eq(0,"(2*MEDPRICE+close)/3",[&](int i){return (2*m[i]+S.C[i])/3;},at);}
  else if(n=="WCLPRICE"){Al m=c.get("MEDPRICE",{},s);eq(0,"(MEDPRICE+close)/2",[&](int i){return (m[i]+S.C[i])/2;},at);}
  else if(n=="AVGPRICE"){Al m=c.get("MEDPRICE",{},s);eq(0,"(2*MEDPRICE+open+close)/4",[&](int i){return (2*m[i]+S.O[i]+S.C[i])/4;},at);}
  else if(n=="TAN"||n=="TANH"){bool h=n=="TANH";Al a=c.get(h?"SINH":"SIN",{},s),b=c.get(h?"COSH":"COS",{},s);eq(0,"sin/cos",[&](int i){return fabs(S.r[i])<15?a[i]/b[i]:NAN;},1e-6);}
  else if(n=="LN"){VD z=S.r;for(double&v:z)v=fabs(v);Al q=c.get("LOG10",{},s,0,{&z});eq(0,"log10 * ln 10",[&](int i){return S.r[i]>0?q[i]*2.302585092994045684:NAN;},1e-9);}
  else if(n=="FLOOR"){VD z=S.r;for(double&v:z)v=-v;Al q=c.get("CEIL",{},s,0,{&z});eq(0,"-ceil(-x)",[&](int i){return -q[i];},0,true);}
  else if(n=="ASIN"){Al q=c.get("ACOS",{},s);eq(0,"pi/2 - acos",[&](int i){return 1.5707963267948966-q[i];},1e-9);}
  else if(n=="ADOSC"){if(o[0]==o[1])eq(0,"equal periods give 0",[&](int){return 0.0;},1e-6);else{Al q=c.get("ADOSC",{o[1],o[0]},s);double vs=0;for(double v:S.V)vs+=fabs(v);eq(0,"swapping the periods changes the sign",[&](int i){return -q[i];},1e-9*vs);}}
  else if(n=="OBV"||n=="AD"||n=="PVT"||n=="NVI"||n=="PVI"){ /* differences do not depend on where the range starts */
    int s2=R.in(s,e);Al q=c.get(f.name,{},s2);if(q.ok&&q.b<=e){int t0=std::max(q.b,r.b);double d0=r.v[0][t0-r.b],q0=q[t0],vs=0;for(double v:S.V)vs+=fabs(v);bool mul=n=="NVI"||n=="PVI";
      if(mul&&(!(fabs(q0)>1e-3)||!(fabs(d0)>1e-3)))return cnt;
      eq(0,mul?"growth since a later start":"increase since a later start",[&](int i){return i<t0?NAN:mul?d0*(q[i]/q0):d0+q[i]-q0;},mul?1e-6*fabs(d0)+1e-6:1e-9*vs);}}
  return cnt;}
}
PROPERTY(C21){
  each_case("C21",600,[&](const Fn&f,Rng&R,long){
    double o[8],ro[8];gen_opts(R,f,o,R.p(.1)?90:30);resolve_opts(f,o,ro);int lb=f.lookback(o);
    int n=lb+R.in(1,R.p(.2)?200:80),s=R.p(.5)?R.in(0,lb):R.in(0,n-1),e=R.p(.8)?n-1:R.in(s,n-1);
    Series S;gen_series(R,n,S,R.p(.8)?GRID_DYADIC:-1);SC=fmax(1,in_scale(f,S));std::vector<const double*>in;ins_of(f,S,in);
    Out r=run_batch(f,s,e,in.data(),o);seen(case_hash(f,o,s,e,S),r.n>0);
    if(r.rc){violate(f.name,"rc","rc=%d opts:%s",r.rc,opts_str(f,o).c_str());return;}
    bool dy=S.kind!=5;(void)dy;
    /* bounds */
    for(int k=0;k<f.nOut;k++){Bd b;if(!bounds(f,ro,k,b))continue;double t=(is(f,"VAR")?1e-9*SC*SC:b.hi==INF||b.lo==-INF?1e-9*SC*(is(f,"STDDEV")?fabs(ro[1])+1:1):1e-7*fmax(1,b.hi));
      for(int i=0;i<r.n;i++){double x=r.at(f,k,i);if(isnan(x)&&is(f,"IMI"))continue;if(!(x>=b.lo-t&&x<=b.hi+t)){if(var_degenerate(f,o,in.data(),n,r.b+i))continue;violate(f.name,"bound","out#%d bar %d is %.17g, outside %g..%g (s=%d e=%d) opts:%s data:%s",k,r.b+i,x,b.lo,b.hi,s,e,opts_str(f,o).c_str(),S.tag);break;}stat_add("bounded_values");}}
    /* ordering */
    auto order=[&](int i,double a,double b,const char*w){if(!(a>=b-1e-9*SC)&&!isnan(a)&&!isnan(b)){violate(f.name,"order","%s does not hold at bar %d: %.17g, %.17g opts:%s data:%s",w,r.b+i,a,b,opts_str(f,o).c_str(),S.tag);return false;}stat_add("ordered_values");return true;};
    if(is(f,"BBANDS")&&ro[1]>=0&&ro[2]>=0){for(int i=0;i<r.n;i++)if(!order(i,r.v[0][i],r.v[1][i],"upper >= middle")||!order(i,r.v[1][i],r.v[2][i],"middle >= lower"))break;}
    if(is(f,"ACCBANDS"))for(int i=0;i<r.n;i++){bool pos=true;for(int j=r.b+i-(int)ro[0]+1;j<=r.b+i;j++)pos&=S.L[j]>0;if(pos&&(!order(i,r.v[0][i],r.v[1][i],"upper >= middle")))break;}
    if(is(f,"MINMAX"))for(int i=0;i<r.n;i++)if(!order(i,r.v[1][i],r.v[0][i],"max >= min"))break;
    if(is(f,"SMA")||is(f,"WMA")||is(f,"TRIMA")||is(f,"MIDPOINT")||((is(f,"MA")&&(ro[1]==0||ro[1]==2||ro[1]==5)))){int p=(int)ro[0];for(int i=0;i<r.n;i++){double h=-INF,l=INF;for(int j=0;j<p;j++){h=fmax(h,S.r[r.b+i-j]);l=fmin(l,S.r[r.b+i-j]);}if(!order(i,h,r.v[0][i],"highest of the window >= average")||!order(i,r.v[0][i],l,"average >= lowest of the window"))break;}}
    if(is(f,"EMA")||is(f,"WLMA")){int a=r.b-lb;double h=-INF,l=INF;for(int j=a;j<r.b;j++){h=fmax(h,S.r[j]);l=fmin(l,S.r[j]);}for(int i=0;i<r.n;i++){h=fmax(h,S.r[r.b+i]);l=fmin(l,S.r[r.b+i]);if(!order(i,h,r.v[0][i],"highest so far >= average")||!order(i,r.v[0][i],l,"average >= lowest so far"))break;}}
    if(!strncmp(f.name,"AVGPRICE",8)||is(f,"MEDPRICE")||is(f,"TYPPRICE")||is(f,"WCLPRICE"))for(int i=0;i<r.n;i++)if(!order(i,S.H[r.b+i],r.v[0][i],"high >= price")||!order(i,r.v[0][i],S.L[r.b+i],"price >= low"))break;
    /* identities */
    OKID=true;int c=identities(f,o==ro?o:ro,r,S,s,e,R);stat_add("identities",c);if(c&&R.p(.002))sample("%s(%d,%d): %d identities over %d bars, opts:%s data:%s",f.name,s,e,c,r.n,opts_str(f,o).c_str(),S.tag);
    /* scaling by powers of two, exact: values never near the library's zero thresholds */
    {int kp=R.p(.2)?0:R.in(-6,9),kv=R.in(-3,6);bool deep=R.p(.3)&&!squares(f,ro);if(deep)kp=R.p(.7)?-R.in(7,22):R.in(10,22);double fp=ldexp(1,kp),fv=ldexp(1,kv);static const int KS[]={0,5,7,8,12};Series Q;gen_series(R,n,Q,GRID_DYADIC,KS[R.in(0,4)]);
      if(f.kinds[0]=='r')for(double&v:Q.r)if(fabs(v)<1e-3)v=0.5;
      bool str=R.p(.25);
      Series Z=Q;for(VD*v:{&Z.O,&Z.H,&Z.L,&Z.C,&Z.r,&Z.s})for(double&x:*v)x*=fp;for(double&x:Z.V)x*=fv;
      double oz[8];memcpy(oz,o,sizeof oz);std::vector<const double*>qi,zi;ins_of(f,Q,qi);ins_of(f,Z,zi);
      for(int form=0;form<(str?2:1);form++){Out a=form?run_state(f,n,qi.data(),o,nullptr):run_batch(f,s,e,qi.data(),o),b=form?run_state(f,n,zi.data(),oz,nullptr):run_batch(f,s,e,zi.data(),oz);
      if(a.rc!=b.rc||a.n!=b.n){violate(f.name,"scale-range","scaled prices change the range: %d/%d elements opts:%s",a.n,b.n,opts_str(f,o).c_str());return;}
      for(int k=0;k<f.nOut;k++){int p,v;degree(f,k,ro,p,v);if(p==99)continue;double m=ldexp(1,p*kp+v*kv);
        if(form&&is(f,"MAVP"))continue;
        for(int i=form?lb:0;i<a.n;i++){double x=a.at(f,k,i)*(f.outInt[k]?1:m),y=b.at(f,k,i);if(x==y||(isnan(x)&&isnan(y))){stat_add("scaled_values");continue;}
          if((x==0)!=(y==0)){double d=fabs(x)+fabs(y);if(d<1e-5*(deep?m:fmax(1,m))*SC||is(f,"CORREL")){stat_add("threshold_values");continue;}}   /* TA_EPSILON thresholds are absolute */
          if(is(f,"MFI")||var_degenerate(f,o,qi.data(),n,(form?0:a.b)+i)){stat_add("threshold_values");continue;}
          double at=(is(f,"BBANDS")||is(f,"STDDEV")?1e-6*fmax(1,fabs(m)):1e-9*fabs(m))*SC;if(close(x,y,1e-9,at)&&!f.outInt[k]){stat_add("scaled_values");continue;}
          int bi=form?i-lb:i;double wb=bi<0?0:wobble(f,form?0:s,form?n-1:e,n,qi.data(),o,k,bi,1e-12,24);if((f.outInt[k]?wb>0&&strncmp(f.name,"CDL",3):fabs(x-y)<=1000*wb*fabs(m)||wb>1e-3*SC)){stat_add("ill_conditioned");continue;}
          violate(f.name,"scale","%s: out#%d element %d is %.17g for prices x%g volumes x%g, expected %.17g (s=%d e=%d) opts:%s data:%s",form?"stream":"batch",k,i,y,fp,fv,x,s,e,opts_str(f,o).c_str(),Q.tag);k=3;form=2;break;}}}}
  });
}
