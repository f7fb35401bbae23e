/* C18, C19, C20: every non-candlestick function against a model written from its definition.
   The models evaluate windows directly (no running sums, no ring buffers) on the bars
   [startIdx-lookback .. endIdx]; the lookback is the model's own formula. */
#include "core.h"
#include "ref.h"
uint64_t case_hash(const Fn&f,const double*o,int s,int e,const Series&S);
bool var_degenerate(const Fn&f,const double*o,const double*const*in,int n,int bar);
namespace ref {
int U(int id){return (int)TA_GetUnstablePeriod((TA_FuncUnstId)id);}
static bool z(double v){return fabs(v)<1e-14;}
static VD nanv(int m){return VD(m,NAN);}
/* ---- moving averages; values for t>=b, the averaged window starts malb() bars before b ---- */
static int emalb(int p,int u){return p-1+u;}
int malb(int ty,int p){if(p<=1)return 0;
  switch(ty){case 0:case 2:case 5:return p-1;case 1:return emalb(p,U(TA_FUNC_UNST_EMA));case 3:return 2*emalb(p,U(TA_FUNC_UNST_EMA));
   case 4:return 3*emalb(p,U(TA_FUNC_UNST_EMA));case 6:return p+U(TA_FUNC_UNST_KAMA);case 7:return 32+U(TA_FUNC_UNST_MAMA);
   case 8:return 6*(p-1)+U(TA_FUNC_UNST_T3);default:return p-1+U(TA_FUNC_UNST_WLMA);}}
static double mean(const VD&x,int a,int p){double s=0;for(int i=0;i<p;i++)s+=x[a+i];return s/p;}
static VD expo(const VD&x,int b,int p,double k,int u){int m=x.size();VD r=nanv(m);int a=b-(p-1)-u;if(a<0||b>=m)return r;
  double y=mean(x,a,p);if(u==0)r[b]=y;
  for(int t=a+p;t<m;t++){y=k*x[t]+(1-k)*y;if(t>=b)r[t]=y;}
  return r;}
static VD sma(const VD&x,int b,int p){int m=x.size();VD r=nanv(m);for(int t=b;t<m;t++)r[t]=mean(x,t-p+1,p);return r;}
static VD wma(const VD&x,int b,int p){int m=x.size();VD r=nanv(m);for(int t=b;t<m;t++){double s=0;for(int i=1;i<=p;i++)s+=i*x[t-p+i];r[t]=s/(p*(p+1.0)/2);}return r;}
static VD trima(const VD&x,int b,int p){int m=x.size();VD r=nanv(m);for(int t=b;t<m;t++){double s=0,w=0;for(int i=0;i<p;i++){double g=i<p-1-i?i+1:p-i;s+=g*x[t-p+1+i];w+=g;}r[t]=s/w;}return r;}
static VD ema(const VD&x,int b,int p,double k=0,int u=-1){return expo(x,b,p,k?k:2.0/(p+1),u<0?U(TA_FUNC_UNST_EMA):u);}
static VD dema(const VD&x,int b,int p){int e=emalb(p,U(TA_FUNC_UNST_EMA));VD a=ema(x,b-e,p),c=ema(a,b,p),r=nanv(x.size());for(size_t t=b;t<x.size();t++)r[t]=2*a[t]-c[t];return r;}
static VD tema(const VD&x,int b,int p){int e=emalb(p,U(TA_FUNC_UNST_EMA));VD a=ema(x,b-2*e,p),c=ema(a,b-e,p),d=ema(c,b,p),r=nanv(x.size());for(size_t t=b;t<x.size();t++)r[t]=3*a[t]-3*c[t]+d[t];return r;}
static VD kama(const VD&x,int b,int p,int u){int m=x.size();VD r=nanv(m);int a=b-p-u;double prev=x[a+p-1];
  for(int t=a+p;t<m;t++){double sum=0;for(int i=0;i<p;i++)sum+=fabs(x[t-i]-x[t-i-1]);double dir=x[t]-x[t-p];
    double er=sum<=dir||z(sum)?1:fabs(dir/sum);double sc=er*(2.0/3-2.0/31)+2.0/31;sc*=sc;prev+=sc*(x[t]-prev);if(t>=b)r[t]=prev;}
  return r;}
static VD t3(const VD&x,int b,int p,double v,int u){int m=x.size();std::vector<VD>e;VD c=x;int st=b-6*(p-1)-u;
  for(int i=0;i<6;i++){st+=p-1;c=ema(c,st,p,2.0/(p+1),0);e.push_back(c);}
  double c1=-v*v*v,c2=3*v*v+3*v*v*v,c3=-6*v*v-3*v-3*v*v*v,c4=1+3*v+v*v*v+3*v*v;VD r=nanv(m);
  for(int t=b;t<m;t++)r[t]=c1*e[5][t]+c2*e[4][t]+c3*e[3][t]+c4*e[2][t];return r;}
/* ---- Ehlers' Hilbert transform cycle measurement; first measured bar = window index `first` ---- */
struct Cycle{VD smooth,I1,Q1,per,sper,phase;int first;};
static bool g_sing;   /* an exact cancellation in the cycle measurement: its phase is 0 by definition, +-90 degrees with any rounding */
static Cycle cycle(const VD&x,int a,int first){int m=x.size();double xm=0;for(double v:x)if(isfinite(v))xm=fmax(xm,fabs(v));Cycle c;c.first=a+first;VD D(m,0),Z(m,0);c.smooth=Z;c.I1=Z;c.Q1=Z;c.per=Z;c.sper=Z;c.phase=Z;VD jI=Z,jQ=Z;
  double I2=0,Q2=0,Re=0,Im=0,per=0,sper=0,ph=0;
  auto H=[&](const VD&v,int t,double k){auto g=[&](int i){return i>=c.first?v[i]:0.0;};return (0.0962*g(t)+0.5769*g(t-2)-0.5769*g(t-4)-0.0962*g(t-6))*k;};
  const double deg=45/atan(1.0);
  for(int t=c.first;t<m;t++){double k=0.075*per+0.54;
    c.smooth[t]=(4*x[t]+3*x[t-1]+2*x[t-2]+x[t-3])/10;
    D[t]=H(c.smooth,t,k);c.Q1[t]=H(D,t,k);c.I1[t]=t-3>=c.first?D[t-3]:0;if(t-3>=c.first&&fabs(c.I1[t])<1e-13*xm)g_sing=true;jI[t]=H(c.I1,t,k);jQ[t]=H(c.Q1,t,k);
    double q=0.2*(c.Q1[t]+jI[t])+0.8*Q2,i=0.2*(c.I1[t]-jQ[t])+0.8*I2;
    Re=0.2*(i*I2+q*Q2)+0.8*Re;Im=0.2*(i*Q2-q*I2)+0.8*Im;Q2=q;I2=i;
    double p=per;if(Im!=0&&Re!=0)p=360/(atan(Im/Re)*deg);
    if(p>1.5*per)p=1.5*per;if(p<0.67*per)p=0.67*per;if(p<6)p=6;else if(p>50)p=50;
    per=0.2*p+0.8*per;sper=0.33*per+0.67*sper;c.per[t]=per;c.sper[t]=sper;
    int n=sper+0.5>0?(int)(sper+0.5):0;double re=0,im=0;
    for(int j=0;j<n;j++){double an=j*8*atan(1.0)/n,s=t-j>=c.first?c.smooth[t-j]:0;re+=sin(an)*s;im+=cos(an)*s;}
    if(n&&fabs(im)<1e-12*xm)g_sing=true;
    if(fabs(im)>0)ph=atan(re/im)*deg;else if(re<0)ph-=90;else if(re>0)ph+=90;
    ph+=90;ph+=360/sper;if(im<0)ph+=180;if(ph>315)ph-=360;c.phase[t]=ph;}
  return c;}
static void mama(const VD&x,int b,double fl,double sl,int u,VD&M,VD&F){int m=x.size();M=F=nanv(m);Cycle c=cycle(x,b-32-u,12);double ma=0,fa=0,pp=0;const double deg=45/atan(1.0);
  for(int t=c.first;t<m;t++){double ph=c.I1[t]!=0?atan(c.Q1[t]/c.I1[t])*deg:0,d=pp-ph;pp=ph;if(d<1)d=1;double al=d>1?fmax(fl/d,sl):fl;
    ma=al*x[t]+(1-al)*ma;fa=0.5*al*ma+(1-0.5*al)*fa;if(t>=b){M[t]=ma;F[t]=fa;}}}
VD MA(int ty,int p,const VD&x,int b){
  if(p<=1){VD r=x;for(int t=0;t<b&&t<(int)r.size();t++)r[t]=NAN;return r;}
  switch(ty){case 0:return sma(x,b,p);case 1:return ema(x,b,p);case 2:return wma(x,b,p);case 3:return dema(x,b,p);case 4:return tema(x,b,p);case 5:return trima(x,b,p);
   case 6:return kama(x,b,p,U(TA_FUNC_UNST_KAMA));case 7:{VD M,F;mama(x,b,0.5,0.05,U(TA_FUNC_UNST_MAMA),M,F);return M;}
   case 8:return t3(x,b,p,0.7,U(TA_FUNC_UNST_T3));default:return expo(x,b,p,1.0/p,U(TA_FUNC_UNST_WLMA));}}
/* ---- windows ---- */
static double hi(const VD&x,int t,int p){double h=x[t];for(int i=1;i<p;i++)h=fmax(h,x[t-i]);return h;}
static double lo(const VD&x,int t,int p){double h=x[t];for(int i=1;i<p;i++)h=fmin(h,x[t-i]);return h;}
static double variance(const VD&x,int t,int p){double mu=mean(x,t-p+1,p),s=0;for(int i=0;i<p;i++)s+=(x[t-i]-mu)*(x[t-i]-mu);return s/p;}
static double stdv(const VD&x,int t,int p){double v=variance(x,t,p);return v<1e-14?0:sqrt(v);}
static double tr(const W&w,int t){return fmax(w.H[t]-w.L[t],fmax(fabs(w.H[t]-w.C[t-1]),fabs(w.L[t]-w.C[t-1])));}
static void linfit(const VD&x,int t,int p,double&slope,double&icpt){double xm=(p-1)/2.0,ym=mean(x,t-p+1,p),sxy=0,sxx=0;for(int i=0;i<p;i++){sxy+=(i-xm)*(x[t-p+1+i]-ym);sxx+=(i-xm)*(i-xm);}slope=sxy/sxx;icpt=ym-slope*xm;}
static double adline(const W&w,int t){double r=w.H[t]-w.L[t];return r>0?((w.C[t]-w.L[t])-(w.H[t]-w.C[t]))/r*w.V[t]:0;}
static void dmv(const W&w,int t,double&pl,double&mi){double up=w.H[t]-w.H[t-1],dn=w.L[t-1]-w.L[t];pl=mi=0;if(dn>0&&up<dn)mi=dn;else if(up>0&&up>dn)pl=up;}
/* Wilder sums of DM and TR: p-1 bars summed, then s - s/p + new; value at t (from window index p) */
struct Wild{VD pl,mi,tr;};
static Wild wilder(const W&w,int p,int a,bool t_=true){int m=w.m;Wild r{nanv(m),nanv(m),nanv(m)};double P=0,M=0,T=0;
  for(int t=a+1;t<m;t++){double x,y;dmv(w,t,x,y);double q=t_?tr(w,t):0;if(t<a+p){P+=x;M+=y;T+=q;}else{P=P-P/p+x;M=M-M/p+y;T=T-T/p+q;}r.pl[t]=P;r.mi[t]=M;r.tr[t]=T;}
  return r;}
/* DX measured from bar b on, -1 = undefined */
static VD dxraw(const W&w,const Wild&q){VD r(w.m,-1);for(int t=0;t<w.m;t++)if(q.tr[t]==q.tr[t]&&!z(q.tr[t])){double a=100*q.mi[t]/q.tr[t],b=100*q.pl[t]/q.tr[t];if(!z(a+b))r[t]=100*fabs(a-b)/(a+b);}return r;}
static VD adxv(const W&w,int p,int a){ /* ADX, first value at window index a+2p-1 */
  Wild q=wilder(w,p,a);VD d=dxraw(w,q),r=nanv(w.m);double s=0;int last=a+2*p-1;for(int t=a+p;t<=last&&t<w.m;t++)if(d[t]>=0)s+=d[t];
  double v=s/p;for(int t=last;t<w.m;t++){if(t>last&&d[t]>=0)v=(v*(p-1)+d[t])/p;r[t]=v;}return r;}
static void gains(const VD&x,int p,int u,VD&g,VD&l){int m=x.size();g=l=nanv(m);double G=0,L=0;
  for(int t=1;t<m;t++){double d=x[t]-x[t-1],a=d>0?d:0,b=d<0?-d:0;if(t<=p){G+=a;L+=b;if(t==p){G/=p;L/=p;}}else{G=(G*(p-1)+a)/p;L=(L*(p-1)+b)/p;}if(t>=p){g[t]=G;l[t]=L;}}
  (void)u;}
static VD rsi(const VD&x,int p){VD g,l,r=nanv(x.size());gains(x,p,0,g,l);for(size_t t=p;t<x.size();t++)r[t]=z(g[t]+l[t])?0:100*(g[t]/(g[t]+l[t]));return r;}
static VD fastk(const VD&H,const VD&L,const VD&C,int a,int p){int m=C.size();VD r=nanv(m);for(int t=a;t<m;t++){double h=hi(H,t,p),l=lo(L,t,p);r[t]=h!=l?100*(C[t]-l)/(h-l):0;}return r;}
static VD sub(const VD&a,const VD&b){VD r(a.size());for(size_t i=0;i<r.size();i++)r[i]=a[i]-b[i];return r;}
/* macd with periods already known; extra parameters give fixed smoothing constants */
static void macd(W&w,int fa,int sl,int sg,double kf,double ks){
  if(!kf&&sl<fa)std::swap(sl,fa);
  int u=U(TA_FUNC_UNST_EMA),b=w.lb-emalb(sg,u);
  VD s=ema(w.x,b,sl,ks),f=ema(w.x,b,fa,kf);w.out[0]=sub(f,s);w.out[1]=ema(w.out[0],w.lb,sg);w.out[2]=sub(w.out[0],w.out[1]);}
static void sarx(W&w,double sv,double off,double iL,double aL,double mL,double iS,double aS,double mS,bool ext){
  iL=fmin(iL,mL);aL=fmin(aL,mL);iS=fmin(iS,mS);aS=fmin(aS,mS);
  bool lng;double up=w.H[1]-w.H[0],dn=w.L[0]-w.L[1];
  lng=sv==0?!(dn>0&&up<dn):sv>0;
  double ep=lng?w.H[1]:w.L[1],sar=sv==0?(lng?w.L[0]:w.H[0]):fabs(sv),af=lng?iL:iS,afL=iL,afS=iS;(void)af;
  VD r=nanv(w.m);
  for(int t=1;t<w.m;t++){int y=t==1?1:t-1; /* the first bar has no earlier bar in the position */
    double lo2=fmin(w.L[y],w.L[t]),hi2=fmax(w.H[y],w.H[t]);
    if(lng){ if(w.L[t]<=sar){lng=false;sar=fmax(ep,hi2);sar+=sar*off;r[t]=ext?-sar:sar;afS=iS;ep=w.L[t];sar=fmax(sar+afS*(ep-sar),hi2);}
      else{r[t]=sar;if(w.H[t]>ep){ep=w.H[t];afL=fmin(afL+aL,mL);}sar=fmin(sar+afL*(ep-sar),lo2);}
    }else{ if(w.H[t]>=sar){lng=true;sar=fmin(ep,lo2);sar-=sar*off;r[t]=sar;afL=iL;ep=w.H[t];sar=fmin(sar+afL*(ep-sar),lo2);}
      else{r[t]=ext?-sar:sar;if(w.L[t]<ep){ep=w.L[t];afS=fmin(afS+aS,mS);}sar=fmax(sar+afS*(ep-sar),hi2);}}}
  w.out[0]=r;}
#define FR(t) for(int t=w.lb;t<w.m;t++)
#define P1 ((int)o[0])
#define P2 ((int)o[1])
#define LB(e) [](const double*o)->int{(void)o;return e;}
#define CALC [](W&w,const double*o)
#define Y w.out[0]
#define MAP1(fun) {LB(0),CALC{(void)o;FR(t)Y[t]=fun(w.x[t]);},20,1}
const std::vector<std::pair<const char*,Model>>&models(){
 static const std::vector<std::pair<const char*,Model>> M={
 /* ---------------- C18 ---------------- */
 {"SMA",{LB(P1-1),CALC{Y=sma(w.x,w.lb,P1);},18}},
 {"EMA",{LB(emalb(P1,U(TA_FUNC_UNST_EMA))),CALC{Y=ema(w.x,w.lb,P1);},18}},
 {"WLMA",{LB(emalb(P1,U(TA_FUNC_UNST_WLMA))),CALC{Y=expo(w.x,w.lb,P1,1.0/P1,U(TA_FUNC_UNST_WLMA));},18}},
 {"WMA",{LB(P1-1),CALC{Y=wma(w.x,w.lb,P1);},18}},
 {"DEMA",{LB(2*emalb(P1,U(TA_FUNC_UNST_EMA))),CALC{Y=dema(w.x,w.lb,P1);},18}},
 {"TEMA",{LB(3*emalb(P1,U(TA_FUNC_UNST_EMA))),CALC{Y=tema(w.x,w.lb,P1);},18}},
 {"TRIMA",{LB(P1-1),CALC{Y=trima(w.x,w.lb,P1);},18}},
 {"KAMA",{LB(P1+U(TA_FUNC_UNST_KAMA)),CALC{Y=kama(w.x,w.lb,P1,U(TA_FUNC_UNST_KAMA));},18}},
 {"MAMA",{LB(32+U(TA_FUNC_UNST_MAMA)),CALC{mama(w.x,w.lb,o[0],o[1],U(TA_FUNC_UNST_MAMA),w.out[0],w.out[1]);w.cond=true;},18}},
 {"T3",{LB(6*(P1-1)+U(TA_FUNC_UNST_T3)),CALC{Y=t3(w.x,w.lb,P1,o[1],U(TA_FUNC_UNST_T3));w.cond=true;},18}},
 {"MA",{LB(malb(P2,P1)),CALC{Y=MA(P2,P1,w.x,w.lb);w.cond=P2==6||P2==7;},18}},
 {"MAVP",{LB(malb((int)o[2],P2)),CALC{std::map<int,VD>c;FR(t){int p=(int)w.p[t];if(p<P1)p=P1;else if(p>P2)p=P2;if(!c.count(p))c[p]=MA((int)o[2],p,w.x,w.lb);Y[t]=c[p][t];}w.cond=o[2]==6||o[2]==7;},18}},
 {"BBANDS",{LB(std::max(P1-1,malb((int)o[3],P1))),CALC{w.out[1]=MA((int)o[3],P1,w.x,w.lb);FR(t){double d=stdv(w.x,t,P1);w.out[0][t]=w.out[1][t]+d*o[1];w.out[2][t]=w.out[1][t]-d*o[2];}w.cond=true;},18}},
 {"ACCBANDS",{LB(P1-1),CALC{VD u(w.m),d(w.m);for(int t=0;t<w.m;t++){double s=w.H[t]+w.L[t],k=z(s)?0:4*(w.H[t]-w.L[t])/s;u[t]=w.H[t]*(1+k);d[t]=w.L[t]*(1-k);}w.out[0]=sma(u,w.lb,P1);w.out[1]=sma(w.C,w.lb,P1);w.out[2]=sma(d,w.lb,P1);},18}},
 {"MIDPOINT",{LB(P1-1),CALC{FR(t)Y[t]=(hi(w.x,t,P1)+lo(w.x,t,P1))/2;},18}},
 {"MIDPRICE",{LB(P1-1),CALC{FR(t)Y[t]=(hi(w.H,t,P1)+lo(w.L,t,P1))/2;},18}},
 {"SAR",{LB(1),CALC{sarx(w,0,0,o[0],o[0],o[1],o[0],o[0],o[1],false);w.cond=true;},18}},
 {"SAREXT",{LB(1),CALC{sarx(w,o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],true);w.cond=true;},18}},
 {"HT_TRENDLINE",{LB(63+U(TA_FUNC_UNST_HT_TRENDLINE)),CALC{Cycle c=cycle(w.x,0,37);double a=0,b=0,d=0;for(int t=c.first;t<w.m;t++){int n=(int)(c.sper[t]+0.5);double s=0;for(int i=0;i<n;i++)s+=w.x[t-i];if(n)s/=n;if(t>=w.lb)Y[t]=(4*s+3*a+2*b+d)/10;d=b;b=a;a=s;}w.cond=true;},18}},
 /* ---------------- C19 ---------------- */
 {"RSI",{LB(P1+U(TA_FUNC_UNST_RSI)),CALC{Y=rsi(w.x,P1);w.at=1e-6;},19}},
 {"CMO",{LB(P1+U(TA_FUNC_UNST_CMO)),CALC{VD g,l;gains(w.x,P1,0,g,l);FR(t)Y[t]=z(g[t]+l[t])?0:100*(g[t]-l[t])/(g[t]+l[t]);w.at=1e-6;},19}},
 {"MFI",{LB(P1+U(TA_FUNC_UNST_MFI)),CALC{VD tp(w.m);for(int t=0;t<w.m;t++)tp[t]=(w.H[t]+w.L[t]+w.C[t])/3;FR(t){double a=0,b=0;for(int i=t-P1+1;i<=t;i++){double f=tp[i]*w.V[i];if(tp[i]<tp[i-1])b+=f;else if(tp[i]>tp[i-1])a+=f;}Y[t]=a+b<1?0:100*a/(a+b);}w.at=1e-6;w.cond=true;},19}},
 {"ROC",{LB(P1),CALC{FR(t)Y[t]=w.x[t-P1]!=0?(w.x[t]/w.x[t-P1]-1)*100:0;},19}},
 {"ROCP",{LB(P1),CALC{FR(t)Y[t]=w.x[t-P1]!=0?(w.x[t]-w.x[t-P1])/w.x[t-P1]:0;},19}},
 {"ROCR",{LB(P1),CALC{FR(t)Y[t]=w.x[t-P1]!=0?w.x[t]/w.x[t-P1]:0;},19}},
 {"ROCR100",{LB(P1),CALC{FR(t)Y[t]=w.x[t-P1]!=0?w.x[t]/w.x[t-P1]*100:0;},19}},
 {"MOM",{LB(P1),CALC{FR(t)Y[t]=w.x[t]-w.x[t-P1];},19}},
 {"MACD",{LB(emalb(std::max(P1,P2),U(TA_FUNC_UNST_EMA))+emalb((int)o[2],U(TA_FUNC_UNST_EMA))),CALC{macd(w,P1,P2,(int)o[2],0,0);},19}},
 {"MACDFIX",{LB(emalb(26,U(TA_FUNC_UNST_EMA))+emalb(P1,U(TA_FUNC_UNST_EMA))),CALC{macd(w,12,26,P1,0.15,0.075);},19}},
 {"MACDEXT",{LB(std::max(malb((int)o[1],P1),malb((int)o[3],(int)o[2]))+malb((int)o[5],(int)o[4])),CALC{int b=w.lb-malb((int)o[5],(int)o[4]);VD x=MA((int)o[1],P1,w.x,b),y=MA((int)o[3],(int)o[2],w.x,b);w.out[0]=(int)o[2]<P1?sub(y,x):sub(x,y);w.out[1]=MA((int)o[5],(int)o[4],w.out[0],w.lb);w.out[2]=sub(w.out[0],w.out[1]);for(int t:{1,3,5})w.cond|=o[t]==6||o[t]==7;},19}},
 {"APO",{LB(malb((int)o[2],std::max(P1,P2))),CALC{Y=sub(MA((int)o[2],std::min(P1,P2),w.x,w.early(malb((int)o[2],std::min(P1,P2)))),MA((int)o[2],std::max(P1,P2),w.x,w.lb));w.cond=o[2]==6||o[2]==7;},19}},
 {"PPO",{LB(malb((int)o[2],std::max(P1,P2))),CALC{VD f=MA((int)o[2],std::min(P1,P2),w.x,w.early(malb((int)o[2],std::min(P1,P2)))),s=MA((int)o[2],std::max(P1,P2),w.x,w.lb);FR(t)Y[t]=z(s[t])?0:100*(f[t]-s[t])/s[t];w.cond=true;},19}},
 {"STOCH",{LB(P1-1+malb((int)o[2],P2)+malb((int)o[4],(int)o[3])),CALC{int b=w.lb-malb((int)o[4],(int)o[3]);VD k=fastk(w.H,w.L,w.C,P1-1,P1);w.out[0]=MA((int)o[2],P2,k,b);w.out[1]=MA((int)o[4],(int)o[3],w.out[0],w.lb);w.at=1e-6;w.cond=o[2]>5&&o[2]<8;w.cond|=o[4]>5&&o[4]<8;},19}},
 {"STOCHF",{LB(P1-1+malb((int)o[2],P2)),CALC{w.out[0]=fastk(w.H,w.L,w.C,P1-1,P1);w.out[1]=MA((int)o[2],P2,w.out[0],w.lb);w.at=1e-6;w.cond=o[2]>5&&o[2]<8;},19}},
 {"STOCHRSI",{LB(P1+U(TA_FUNC_UNST_RSI)+P2-1+malb((int)o[3],(int)o[2])),CALC{VD r=rsi(w.x,P1);int a=w.lb-malb((int)o[3],(int)o[2]);VD g,l;gains(w.x,P1,0,g,l);w.out[0]=fastk(r,r,r,a,P2);
   /* an RSI that is constant up to rounding has no defined stochastic, unless it is exactly 0 or 100 */
   for(int t=a;t<w.m;t++)if(hi(r,t,P2)-lo(r,t,P2)<1e-9){bool ex=true;for(int i=0;i<P2;i++)ex&=g[t-i]==0||l[t-i]==0;if(!ex&&P2>1)w.out[0][t]=NAN;}
   w.out[1]=MA((int)o[3],(int)o[2],w.out[0],w.lb);w.at=1e-6;w.cond=true;},19}},
 {"WILLR",{LB(P1-1),CALC{FR(t){double h=hi(w.H,t,P1),l=lo(w.L,t,P1);Y[t]=h!=l?-100*(h-w.C[t])/(h-l):0;}w.at=1e-6;},19}},
 {"CCI",{LB(P1-1),CALC{VD tp(w.m);for(int t=0;t<w.m;t++)tp[t]=(w.H[t]+w.L[t]+w.C[t])/3;FR(t){double mu=mean(tp,t-P1+1,P1),d=0;for(int i=0;i<P1;i++)d+=fabs(tp[t-i]-mu);Y[t]=tp[t]-mu!=0&&d!=0?(tp[t]-mu)/(0.015*d/P1):0;if(d<1e-9*fabs(mu)*P1)Y[t]=hi(tp,t,P1)==lo(tp,t,P1)&&mu==tp[t]?0:NAN;}w.at=1e-5;w.cond=true;},19}},
 {"ADX",{LB(2*P1+U(TA_FUNC_UNST_ADX)-1),CALC{Y=adxv(w,P1,0);w.at=1e-6;w.cond=true;},19}},
 {"ADXR",{LB(P1-1+2*P1+U(TA_FUNC_UNST_ADX)-1),CALC{VD a=adxv(w,P1,0);FR(t)Y[t]=(a[t]+a[t-P1+1])/2;w.at=1e-6;w.cond=true;},19}},
 {"DX",{LB(P1+U(TA_FUNC_UNST_DX)),CALC{VD d=dxraw(w,wilder(w,P1,0));double v=0;FR(t){if(d[t]>=0)v=d[t];Y[t]=v;}w.at=1e-6;w.cond=true;},19}},
 {"PLUS_DI",{LB(P1>1?P1+U(TA_FUNC_UNST_PLUS_DI):1),CALC{if(P1>1){Wild q=wilder(w,P1,0);FR(t)Y[t]=z(q.tr[t])?0:100*q.pl[t]/q.tr[t];}else FR(t){double a,b;dmv(w,t,a,b);double r=tr(w,t);Y[t]=z(r)?0:a/r;}w.at=1e-6;},19}},
 {"MINUS_DI",{LB(P1>1?P1+U(TA_FUNC_UNST_MINUS_DI):1),CALC{if(P1>1){Wild q=wilder(w,P1,0);FR(t)Y[t]=z(q.tr[t])?0:100*q.mi[t]/q.tr[t];}else FR(t){double a,b;dmv(w,t,a,b);double r=tr(w,t);Y[t]=z(r)?0:b/r;}w.at=1e-6;},19}},
 {"PLUS_DM",{LB(P1>1?P1-1+U(TA_FUNC_UNST_PLUS_DM):1),CALC{if(P1>1)Y=wilder(w,P1,0,false).pl;else FR(t){double b;dmv(w,t,Y[t],b);}},19}},
 {"MINUS_DM",{LB(P1>1?P1-1+U(TA_FUNC_UNST_MINUS_DM):1),CALC{if(P1>1)Y=wilder(w,P1,0,false).mi;else FR(t){double b;dmv(w,t,b,Y[t]);}},19}},
 {"AROON",{LB(P1),CALC{FR(t){int h=0,l=0;for(int i=1;i<=P1;i++){if(w.H[t-i]>w.H[t-h])h=i;if(w.L[t-i]<w.L[t-l])l=i;}w.out[0][t]=100.0*(P1-l)/P1;w.out[1][t]=100.0*(P1-h)/P1;}},19}},
 {"AROONOSC",{LB(P1),CALC{FR(t){int h=0,l=0;for(int i=1;i<=P1;i++){if(w.H[t-i]>w.H[t-h])h=i;if(w.L[t-i]<w.L[t-l])l=i;}Y[t]=100.0*(l-h)/P1;}},19}},
 {"BOP",{LB(0),CALC{FR(t){double r=w.H[t]-w.L[t];Y[t]=r<1e-14?0:(w.C[t]-w.O[t])/r;}w.at=1e-9;},19}},
 {"TRIX",{LB(3*emalb(P1,U(TA_FUNC_UNST_EMA))+1),CALC{int e=emalb(P1,U(TA_FUNC_UNST_EMA));VD a=ema(w.x,e,P1),b=ema(a,2*e,P1),c=ema(b,3*e,P1);FR(t)Y[t]=c[t-1]!=0?(c[t]/c[t-1]-1)*100:0;w.cond=true;},19}},
 {"ULTOSC",{LB(std::max(P1,std::max(P2,(int)o[2]))),CALC{int p[3]={P1,P2,(int)o[2]};std::sort(p,p+3);FR(t){double v=0;for(int k=0;k<3;k++){double a=0,b=0;for(int i=t-p[k]+1;i<=t;i++){a+=w.C[i]-fmin(w.L[i],w.C[i-1]);b+=tr(w,i);}if(!z(b))v+=(k==0?4:k==1?2:1)*a/b;}Y[t]=100*v/7;}w.at=1e-6;},19}},
 {"AD",{LB(0),CALC{double a=0;FR(t){a+=adline(w,t);Y[t]=a;}},19}},
 {"ADOSC",{LB(emalb(std::max(P1,P2),U(TA_FUNC_UNST_EMA))),CALC{double a=0,f=0,s=0,kf=2.0/(P1+1),ks=2.0/(P2+1);for(int t=0;t<w.m;t++){a+=adline(w,t);if(t==0)f=s=a;else{f=kf*a+(1-kf)*f;s=ks*a+(1-ks)*s;}if(t>=w.lb)Y[t]=f-s;}},19}},
 {"OBV",{LB(0),CALC{double a=w.V[0];FR(t){if(t)a+=w.C[t]>w.C[t-1]?w.V[t]:w.C[t]<w.C[t-1]?-w.V[t]:0;Y[t]=a;}},19}},
 {"NVI",{LB(1),CALC{double a=100;FR(t){if(w.V[t]<w.V[t-1])a+=a*(w.C[t]-w.C[t-1])/w.C[t-1];Y[t]=a;}},19}},
 {"PVI",{LB(1),CALC{double a=100;FR(t){if(w.V[t]>w.V[t-1])a+=a*(w.C[t]-w.C[t-1])/w.C[t-1];Y[t]=a;}},19}},
 {"PVT",{LB(1),CALC{double a=0;FR(t){a+=w.V[t]*(w.C[t]/w.C[t-1]-1);Y[t]=a;}},19}},
 {"IMI",{LB(P1+U(TA_FUNC_UNST_IMI)-1),CALC{FR(t){double a=0,b=0;for(int i=0;i<P1;i++){double d=w.C[t-i]-w.O[t-i];if(d>0)a+=d;else b-=d;}Y[t]=100*(a/(a+b));}w.at=1e-6;},19}},
 /* ---------------- C20 ---------------- */
 {"ACOS",MAP1(acos)},{"ASIN",MAP1(asin)},{"ATAN",MAP1(atan)},{"CEIL",MAP1(ceil)},{"COS",MAP1(cos)},{"COSH",MAP1(cosh)},{"EXP",MAP1(exp)},{"FLOOR",MAP1(floor)},{"LN",MAP1(log)},{"LOG10",MAP1(log10)},{"SIN",MAP1(sin)},{"SINH",MAP1(sinh)},{"SQRT",MAP1(sqrt)},{"TAN",MAP1(tan)},{"TANH",MAP1(tanh)},
 {"ADD",{LB(0),CALC{FR(t)Y[t]=w.x[t]+w.y[t];},20,1}},{"SUB",{LB(0),CALC{FR(t)Y[t]=w.x[t]-w.y[t];},20,1}},{"MULT",{LB(0),CALC{FR(t)Y[t]=w.x[t]*w.y[t];},20,1}},{"DIV",{LB(0),CALC{FR(t)Y[t]=w.x[t]/w.y[t];},20,1}},
 {"SUM",{LB(P1-1),CALC{FR(t)Y[t]=mean(w.x,t-P1+1,P1)*P1;},20}},
 {"MAX",{LB(P1-1),CALC{FR(t)Y[t]=hi(w.x,t,P1);},20,1}},{"MIN",{LB(P1-1),CALC{FR(t)Y[t]=lo(w.x,t,P1);},20,1}},
 {"MINMAX",{LB(P1-1),CALC{FR(t){w.out[0][t]=lo(w.x,t,P1);w.out[1][t]=hi(w.x,t,P1);}},20,1}},
 {"MAXINDEX",{LB(P1-1),CALC{FR(t)Y[t]=hi(w.x,t,P1);},20,2}},{"MININDEX",{LB(P1-1),CALC{FR(t)Y[t]=lo(w.x,t,P1);},20,2}},
 {"MINMAXINDEX",{LB(P1-1),CALC{FR(t){w.out[0][t]=lo(w.x,t,P1);w.out[1][t]=hi(w.x,t,P1);}},20,2}},
 {"VAR",{LB(P1-1),CALC{FR(t)Y[t]=variance(w.x,t,P1);w.at=w.at*w.sc;},20}},
 {"STDDEV",{LB(P1-1),CALC{FR(t)Y[t]=stdv(w.x,t,P1)*o[1];w.cond=true;},20}},
 {"AVGDEV",{LB(P1-1),CALC{FR(t){double mu=mean(w.x,t-P1+1,P1),d=0;for(int i=0;i<P1;i++)d+=fabs(w.x[t-i]-mu);Y[t]=d/P1;}},20}},
 {"CORREL",{LB(P1-1),CALC{FR(t){double a=mean(w.x,t-P1+1,P1),b=mean(w.y,t-P1+1,P1),sx=0,sy=0,q=0;for(int i=0;i<P1;i++){double u=w.x[t-i]-a,v=w.y[t-i]-b;sx+=u*u;sy+=v*v;q+=u*v;}Y[t]=sx*sy<1e-14?0:q/sqrt(sx*sy);}w.at=1e-6;w.cond=true;},20}},
 {"BETA",{LB(P1),CALC{FR(t){VD a,b;for(int i=t-P1+1;i<=t;i++){a.push_back(z(w.x[i-1])?0:(w.x[i]-w.x[i-1])/w.x[i-1]);b.push_back(z(w.y[i-1])?0:(w.y[i]-w.y[i-1])/w.y[i-1]);}
    double ma=mean(a,0,P1),mb=mean(b,0,P1),v=0,c=0;for(int i=0;i<P1;i++){v+=(a[i]-ma)*(a[i]-ma);c+=(a[i]-ma)*(b[i]-mb);}Y[t]=z(v*P1)?0:c/v;}w.at=1e-6;w.cond=true;},20}},
 {"LINEARREG",{LB(P1-1),CALC{FR(t){double a,b;linfit(w.x,t,P1,a,b);Y[t]=b+a*(P1-1);}},20}},
 {"LINEARREG_SLOPE",{LB(P1-1),CALC{FR(t){double a,b;linfit(w.x,t,P1,a,b);Y[t]=a;}},20}},
 {"LINEARREG_INTERCEPT",{LB(P1-1),CALC{FR(t){double a,b;linfit(w.x,t,P1,a,b);Y[t]=b;}},20}},
 {"LINEARREG_ANGLE",{LB(P1-1),CALC{FR(t){double a,b;linfit(w.x,t,P1,a,b);Y[t]=atan(a)*180/M_PI;}w.at=fmax(w.at,1e-7*w.sc);},20}},
 {"TSF",{LB(P1-1),CALC{FR(t){double a,b;linfit(w.x,t,P1,a,b);Y[t]=b+a*P1;}},20}},
 {"AVGPRICE",{LB(0),CALC{FR(t)Y[t]=(w.O[t]+w.H[t]+w.L[t]+w.C[t])/4;},20}},{"MEDPRICE",{LB(0),CALC{FR(t)Y[t]=(w.H[t]+w.L[t])/2;},20}},
 {"TYPPRICE",{LB(0),CALC{FR(t)Y[t]=(w.H[t]+w.L[t]+w.C[t])/3;},20}},{"WCLPRICE",{LB(0),CALC{FR(t)Y[t]=(w.H[t]+w.L[t]+2*w.C[t])/4;},20}},
 {"TRANGE",{LB(1),CALC{FR(t)Y[t]=tr(w,t);},20}},
 {"ATR",{LB(P1+U(TA_FUNC_UNST_ATR)),CALC{if(P1<=1){FR(t)Y[t]=tr(w,t);}else{double a=0;for(int t=1;t<w.m;t++){double r=tr(w,t);if(t<=P1)a+=r/P1;else a=(a*(P1-1)+r)/P1;if(t>=w.lb)Y[t]=a;}}},20}},
 {"NATR",{LB(P1+U(TA_FUNC_UNST_NATR)),CALC{if(P1<=1){FR(t)Y[t]=tr(w,t);}else{double a=0;for(int t=1;t<w.m;t++){double r=tr(w,t);if(t<=P1)a+=r/P1;else a=(a*(P1-1)+r)/P1;if(t>=w.lb)Y[t]=z(w.C[t])?0:100*a/w.C[t];}}},20}},
 {"HT_DCPERIOD",{LB(32+U(TA_FUNC_UNST_HT_DCPERIOD)),CALC{Cycle c=cycle(w.x,0,12);FR(t)Y[t]=c.sper[t];w.cond=true;},20}},
 {"HT_PHASOR",{LB(32+U(TA_FUNC_UNST_HT_PHASOR)),CALC{Cycle c=cycle(w.x,0,12);FR(t){w.out[0][t]=c.I1[t];w.out[1][t]=c.Q1[t];}w.cond=true;},20}},
 {"HT_DCPHASE",{LB(63+U(TA_FUNC_UNST_HT_DCPHASE)),CALC{Cycle c=cycle(w.x,0,37);FR(t)Y[t]=c.phase[t];w.cond=true;w.at=1e-5;},20}},
 {"HT_SINE",{LB(63+U(TA_FUNC_UNST_HT_SINE)),CALC{Cycle c=cycle(w.x,0,37);FR(t){w.out[0][t]=sin(c.phase[t]*M_PI/180);w.out[1][t]=sin((c.phase[t]+45)*M_PI/180);}w.cond=true;w.at=1e-6;},20}},
 {"HT_TRENDMODE",{LB(63+U(TA_FUNC_UNST_HT_TRENDMODE)),CALC{Cycle c=cycle(w.x,0,37);double a=0,b=0,d=0,ps=0,pl=0,s=0,l=0,pph=0;int days=0;
    for(int t=c.first;t<w.m;t++){ps=s;pl=l;s=sin(c.phase[t]*M_PI/180);l=sin((c.phase[t]+45)*M_PI/180);int n=(int)(c.sper[t]+0.5);double av=0;for(int i=0;i<n;i++)av+=w.x[t-i];if(n)av/=n;
      double tl=(4*av+3*a+2*b+d)/10;d=b;b=a;a=av;int trend=1;if((s>l&&ps<=pl)||(s<l&&ps>=pl)){days=0;trend=0;}days++;if(days<0.5*c.sper[t])trend=0;
      double dp=c.phase[t]-pph;pph=c.phase[t];if(c.sper[t]!=0&&dp>0.67*360/c.sper[t]&&dp<1.5*360/c.sper[t])trend=0;
      if(fabs(tl)<=1e-13*w.sc)g_sing=true;if(tl!=0&&fabs((c.smooth[t]-tl)/tl)>=0.015)trend=1;if(t>=w.lb)Y[t]=trend;}w.cond=true;},20}},
 };
 return M;}
const Model*find(const char*n){for(auto&p:models())if(!strcmp(p.first,n))return &p.second;return nullptr;}
bool eval(const Fn&f,const double*ro,const double*const*in,int a,int e,W&w,int lb,int st){
  const Model*M=find(f.name);if(!M)return false;
  w.m=e-a+1;w.lb=lb;w.st=st-a;w.at=-1;w.cond=false;VD*to=nullptr;
  for(int i=0;i<f.nIn;i++){switch(f.kinds[i]){case'O':to=&w.O;break;case'H':to=&w.H;break;case'L':to=&w.L;break;case'C':to=&w.C;break;case'V':to=&w.V;break;case'r':to=&w.x;break;case's':to=&w.y;break;default:to=&w.p;}to->assign(in[i]+a,in[i]+e+1);}
  double sc=1;for(int i=0;i<f.nIn;i++)if(f.kinds[i]!='p'&&(f.kinds[i]!='V'||in_volume_units(f)))for(int t=a;t<=e;t++)if(isfinite(in[i][t]))sc=fmax(sc,fabs(in[i][t]));
  w.sc=sc;w.at=1e-9*sc;for(int k=0;k<3;k++)w.out[k]=nanv(w.m);
  g_sing=false;M->calc(w,ro);w.sing=g_sing;return true;}
}
/* the phase of a signal without any movement is noise */
bool hilbert(const Fn&f,const double*ro){if(!strncmp(f.name,"HT_",3)||is(f,"MAMA"))return true;for(int i=0;i<f.nOpt;i++)if(f.opt[i].type==2&&ro[i]==7)return true;return false;}
bool flat(const Fn&f,const Series&S,int bar){if(S.kind==1||S.kind==2||S.kind==3||S.kind==4||S.kind==6||S.kind==9)return true;const double*x=S.get(f.kinds[f.nIn-1]=='p'?'r':f.kinds[f.nIn-1]);int run=0;for(int i=1;i<=bar;i++){run=x[i]==x[i-1]?run+1:0;if(run>=4)return true;}return false;}
static void run_ref(int grp,const char*prop,long cases){
  g_bigrate=.0001;g_longrate=.0003;
  each_case(prop,cases,[&](const Fn&f,Rng&R,long c){
    /* individual unstable periods, so that a function reacting to the wrong one is seen */
    struct Restore{~Restore(){TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,0);}}rs;
    bool un=R.p(.3);std::string us;if(un){for(int i=0;i<TA_FUNC_UNST_ALL;i++)if(R.p(.6)){int u=R.in(1,20);TA_SetUnstablePeriod((TA_FuncUnstId)i,u);char b[32];snprintf(b,32,"%d:%d,",i,u);us+=b;}}
    double o[8],ro[8];gen_opts(R,f,o,R.p(.15)?110:40);resolve_opts(f,o,ro);const ref::Model*M=ref::find(f.name);
    int lb=M->lb(ro),l2=f.lookback(o);
    if(lb!=l2){violate(f.name,"lookback","lookback %d, its definition needs %d, opts:%s unstable:%s",l2,lb,opts_str(f,o).c_str(),us.c_str());return;}
    int n=lb+gen_len(R,R.in(1,R.p(.2)?260:90)),s=R.p(.4)?R.in(0,lb):R.in(0,n-1),e=R.p(.7)?n-1:R.in(s,n-1);
    if(g_big){double mp=1;for(int j=0;j<f.nOpt;j++)if(f.opt[j].type==1)mp=fmax(mp,ro[j]);if((n-mp)*mp>3e8){stat_add("too_expensive");return;}}   /* the models sum every window anew */
    int g=R.p(.75)?GRID_DYADIC:-1;Series S;gen_series(R,n,S,g);if(g==GRID_DYADIC&&R.p(.2)&&!no_fine(f))refine(R,S);
    if(f.kinds[0]=='r'&&R.p(.1))for(double&v:S.r)if(R.p(.15))v=0;             /* zero denominators */
    if(f.kinds[0]=='r'&&f.nIn>1&&R.p(.1))for(double&v:S.s)if(R.p(.15))v=0;
    if(strchr(f.kinds,'V')&&R.p(.15))for(double&v:S.V)if(R.p(.3))v=R.p(.5)?0:S.V[0];
    std::vector<const double*>in;ins_of(f,S,in);
    bool ff=R.p(.2);Out r=run_form(ff,f,s,e,in.data(),o);int s0=std::max(s,lb),nb=expect_nb(s,e,lb);
    seen(case_hash(f,o,s,e,S),nb>0);
    if(r.rc||r.n!=nb||(nb&&r.b!=s0)){violate(f.name,"range","rc=%d beg=%d nb=%d expected beg=%d nb=%d (s=%d e=%d lookback=%d) opts:%s",r.rc,r.b,r.n,s0,nb,s,e,lb,opts_str(f,o).c_str());return;}
    if(!nb)return;
    ref::W w;ref::eval(f,ro,in.data(),s0-lb,e,w,lb,s);
    bool adaptive=false;for(int j=0;j<f.nOpt;j++)if(f.opt[j].type==2&&(ro[j]==6||ro[j]==7))adaptive=true;   /* efficiency and phase of a series that is constant but for rounding */
    for(int k=0;k<f.nOut;k++)for(int i=0;i<nb;i++){double x=r.at(f,k,i),y=w.out[k][lb+i];
      if(M->exact==2){int q=(int)x;bool inw=q>s0+i-(int)ro[0]&&q<=s0+i;if(inw&&in[0][q]==y){stat_add("values_checked");continue;}
        violate(f.name,"index","out#%d bar %d names bar %d, window (%d..%d), extreme %.17g opts:%s data:%s",k,s0+i,q,s0+i-(int)ro[0]+1,s0+i,y,opts_str(f,o).c_str(),S.tag);k=3;break;}
      if(M->exact==1?(x==y||(isnan(x)&&isnan(y))||close(x,y,1e-12,0)):close(x,y,1e-11,w.at*1e-3)){stat_add("values_checked");continue;}
      bool coarse=M->exact!=1&&close(x,y,1e-7,w.at);if(coarse){stat_add("fine_comparisons");if(ff||i>=1000||no_fine(f)){stat_add("values_checked");continue;}}   /* more than rounding, unless the conditioning explains it */
      if(isnan(y)&&(is(f,"CCI")||is(f,"STOCHRSI"))){stat_add("ill_conditioned");continue;}
      if(is(f,"KAMA")&&n>4000){stat_add("ill_conditioned");continue;}   /* its running sum, compared with its own window, drifts */
      if(var_degenerate(f,o,in.data(),n,s0+i)){stat_add("ill_conditioned");continue;}
      if(is(f,"STOCHRSI")&&k==1&&(ro[3]==6||ro[3]==7)){stat_add("ill_conditioned");continue;}   /* %K of an RSI is often flat: ratios of rounding noise */
      if(hilbert(f,ro)&&(w.sing||flat(f,S,s0+i))){stat_add("ill_conditioned");continue;}
      if(coarse||w.cond||adaptive||g!=GRID_DYADIC||S.kind==5){double wb=wobble(f,s,e,n,in.data(),o,k,i,1e-12,24);if(f.outInt[k]?wb>0:fabs(x-y)<=1000*wb||wb>1e6*w.at){stat_add(coarse?"values_checked":"ill_conditioned");continue;}}
      violate(f.name,"definition","%sout#%d bar %d (s=%d e=%d): %.17g, by definition %.17g opts:%s data:%s unstable:%s",ff?"single precision ":"",k,s0+i,s,e,x,y,opts_str(f,o).c_str(),S.tag,us.c_str());k=3;break;}
    if(R.p(0.002))sample("%s(%d,%d) lookback %d: %d outputs equal the definition, opts:%s data:%s unstable:%s",f.name,s,e,lb,nb,opts_str(f,o).c_str(),S.tag,us.c_str());
  },[&](const Fn&f){const ref::Model*m=ref::find(f.name);return m&&m->grp==grp;});
}
PROPERTY(C18){run_ref(18,"C18",600);}
PROPERTY(C19){run_ref(19,"C19",600);}
PROPERTY(C20){run_ref(20,"C20",600);}
