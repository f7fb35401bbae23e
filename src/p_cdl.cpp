/* C17: every candlestick function against a model written from the pattern's documented definition
   ("Must have" list), evaluated bar by bar with directly computed averages.  Windows that satisfy a
   pattern are found by hill climbing on the model, then each boundary is probed with single-field
   mutations (ties included). */
#include "core.h"
uint64_t case_hash(const Fn&f,const double*o,int s,int e,const Series&S);
namespace {
struct Set{int rt,per;double fac;};
static const Set DEF[11]={{0,10,1.0},{0,10,3.0},{0,10,1.0},{1,10,0.1},{0,0,1.0},{0,0,2.0},{2,10,1.0},{1,10,0.1},{1,5,0.2},{1,5,0.6},{1,5,0.05}};
enum{BL,BVL,BS,BD,SL,SVL,SS,SVS,NEAR,FAR,EQ};
static Set T[11];
static double EPS=0;          /* widening applied to every fuzzy threshold */
static double BEST;           /* largest share of conditions met, for the search */
static const VD*O_,*H_,*L_,*C_;
static int I;
static double O(int k){return (*O_)[I-k];}static double H(int k){return (*H_)[I-k];}static double L(int k){return (*L_)[I-k];}static double C(int k){return (*C_)[I-k];}
static double hi(int k){return fmax(O(k),C(k));}static double lo(int k){return fmin(O(k),C(k));}
static double rb(int k){return hi(k)-lo(k);}static double us(int k){return H(k)-hi(k);}static double ls(int k){return lo(k)-L(k);}
static bool white(int k){return C(k)>=O(k);}static bool black(int k){return !white(k);}
static int col(int k){return white(k)?1:-1;}
static double range(int s,int k){return T[s].rt==0?rb(k):T[s].rt==1?H(k)-L(k):us(k)+ls(k);}
static double fuzz(double v,int k){return v==0||EPS==0?v:v+EPS*fabs(v)+(EPS>0?1:-1)*4e-16*fabs(C(k));}
static double avg(int s,int k){double v;if(T[s].per==0)v=range(s,k);else{v=0;for(int j=1;j<=T[s].per;j++)v+=range(s,k+j);v/=T[s].per;}
  v=T[s].fac*v;if(T[s].rt==2)v/=2;return fuzz(v,k);}
static bool gapup(int a,int b){return lo(a)>hi(b);}static bool gapdn(int a,int b){return hi(a)<lo(b);}       /* real bodies */
static bool wgapup(int a,int b){return L(a)>H(b);}static bool wgapdn(int a,int b){return H(a)<L(b);}         /* whole candles */
static bool lng(int k){return rb(k)>avg(BL,k);}
static bool notlong_s(int k){return rb(k)<=avg(BS,k);}
static bool shrt(int k){return rb(k)<avg(BS,k);}
static bool moves(int k){return rb(k)>avg(BS,k);}
static bool doji(int k){return rb(k)<=avg(BD,k);}
static bool noup(int k){return us(k)<avg(SVS,k);}static bool nolow(int k){return ls(k)<avg(SVS,k);}
static bool eqv(double a,double b,int k){double e=avg(EQ,k);return a<=b+e&&a>=b-e;}
static bool all(std::initializer_list<bool> c){int n=0;for(bool b:c)n+=b;BEST=fmax(BEST,(double)n/c.size());return n==(int)c.size();}
static int P(int s){return T[s].per;}
static int mx(std::initializer_list<int> v){int m=0;for(int x:v)m=std::max(m,x);return m;}
static double PEN;
static double pen(int k,double p){return fuzz(rb(k)*p,k);}
typedef int(*LbF)();typedef int(*PatF)();
/* hikkake: the pattern itself at bar I, +1 bullish, -1 bearish */
static int hik(){
  if(all({H(1)<H(2),L(1)>L(2),H(0)<H(1),L(0)<L(1)}))return 1;
  if(all({H(1)<H(2),L(1)>L(2),H(0)>H(1),L(0)>L(1)}))return -1;return 0;}
static int hikmod(){
  bool in=H(2)<H(3)&&L(2)>L(3)&&H(1)<H(2)&&L(1)>L(2);
  if(all({in,H(2)<H(3),L(2)>L(3),H(1)<H(2),L(1)>L(2),H(0)<H(1),L(0)<L(1),C(2)<=L(2)+avg(NEAR,2)}))return 1;
  if(all({in,H(2)<H(3),L(2)>L(3),H(1)<H(2),L(1)>L(2),H(0)>H(1),L(0)>L(1),C(2)>=H(2)-avg(NEAR,2)}))return -1;return 0;}
static int confirmed(int(*pat)()){
  int now=pat();if(now)return 100*now;
  /* replay the three earlier bars: the latest pattern, unless already confirmed */
  int res=0,idx=-1,save=I,out=0;
  for(int j=3;j>=0;j--){I=save-j;int r=pat();
    if(r){res=r;idx=I;}
    else if(idx>=0&&I<=idx+3){double h=(*H_)[idx-1],l=(*L_)[idx-1];if((res>0&&C(0)>h)||(res<0&&C(0)<l)){if(j==0)out=200*res;idx=-1;}}}
  I=save;return out;}
static bool bodyin(int k,int r){return lo(k)<H(r)&&hi(k)>L(r);}   /* part of body k lies within candle r's range */
struct Pat{const char*n;int back;LbF lb;PatF f;};
#define LBK(...) []()->int{return __VA_ARGS__;}
#define DO []()->int
static const Pat PATS[]={
 {"CDL2CROWS",2,LBK(P(BL)+2),DO{return all({white(2),lng(2),black(1),gapup(1,2),black(0),O(0)<O(1),O(0)>C(1),C(0)>O(2),C(0)<C(2)})?-100:0;}},
 {"CDL3BLACKCROWS",3,LBK(P(SVS)+3),DO{return all({white(3),black(2),nolow(2),black(1),nolow(1),black(0),nolow(0),O(1)<O(2),O(1)>C(2),O(0)<O(1),O(0)>C(1),H(3)>C(2),C(2)>C(1),C(1)>C(0)})?-100:0;}},
 {"CDL3INSIDE",2,LBK(mx({P(BS),P(BL)})+2),DO{int c=col(2);return all({lng(2),notlong_s(1),hi(1)<hi(2),lo(1)>lo(2),col(0)==-c,c>0?C(0)<O(2):C(0)>O(2)})?-100*c:0;}},
 {"CDL3LINESTRIKE",3,LBK(P(NEAR)+3),DO{int c=col(3);return all({col(2)==c,col(1)==c,col(0)==-c,O(2)>=lo(3)-avg(NEAR,3),O(2)<=hi(3)+avg(NEAR,3),O(1)>=lo(2)-avg(NEAR,2),O(1)<=hi(2)+avg(NEAR,2),
   c*C(1)>c*C(2),c*C(2)>c*C(3),c*O(0)>c*C(1),c*C(0)<c*O(3)})?100*c:0;}},
 {"CDL3OUTSIDE",2,LBK(3),DO{int c=col(1);return c>0?(all({black(2),C(1)>O(2),O(1)<C(2),C(0)>C(1)})?100:0):(all({white(2),O(1)>C(2),C(1)<O(2),C(0)<C(1)})?-100:0);}},
 {"CDL3STARSINSOUTH",2,LBK(mx({P(SVS),P(SL),P(BL),P(BS)})+2),DO{return all({black(2),black(1),black(0),lng(2),ls(2)>avg(SL,2),rb(1)<rb(2),O(1)>C(2),O(1)<=H(2),L(1)<C(2),L(1)>=L(2),ls(1)>avg(SVS,1),shrt(0),nolow(0),noup(0),L(0)>L(1),H(0)<H(1)})?100:0;}},
 {"CDL3WHITESOLDIERS",2,LBK(mx({P(SVS),P(BS),P(FAR),P(NEAR)})+2),DO{return all({white(2),noup(2),white(1),noup(1),white(0),noup(0),C(0)>C(1),C(1)>C(2),O(1)>O(2),O(1)<=C(2)+avg(NEAR,2),O(0)>O(1),O(0)<=C(1)+avg(NEAR,1),rb(1)>rb(2)-avg(FAR,2),rb(0)>rb(1)-avg(FAR,1),moves(0)})?100:0;}},
 {"CDLABANDONEDBABY",2,LBK(mx({P(BD),P(BL),P(BS)})+2),DO{int c=col(2);return all({lng(2),doji(1),moves(0),col(0)==-c,c>0?C(0)<C(2)-pen(2,PEN):C(0)>C(2)+pen(2,PEN),c>0?wgapup(1,2):wgapdn(1,2),c>0?wgapdn(0,1):wgapup(0,1)})?-100*c:0;}},
 {"CDLADVANCEBLOCK",2,LBK(mx({P(SL),P(SS),P(FAR),P(NEAR),P(BL)})+2),DO{
   bool weak=(rb(1)<rb(2)-avg(FAR,2)&&rb(0)<rb(1)+avg(NEAR,1))||rb(0)<rb(1)-avg(FAR,1)||(rb(0)<rb(1)&&rb(1)<rb(2)&&(us(0)>avg(SS,0)||us(1)>avg(SS,1)))||(rb(0)<rb(1)&&us(0)>avg(SL,0));
   return all({white(2),white(1),white(0),C(0)>C(1),C(1)>C(2),O(1)>O(2),O(1)<=C(2)+avg(NEAR,2),O(0)>O(1),O(0)<=C(1)+avg(NEAR,1),lng(2),us(2)<avg(SS,2),weak})?-100:0;}},
 {"CDLBELTHOLD",0,LBK(mx({P(BL),P(SVS)})),DO{return all({lng(0),white(0)?nolow(0):noup(0)})?100*col(0):0;}},
 {"CDLBREAKAWAY",4,LBK(P(BL)+4),DO{int c=col(4);return all({lng(4),col(3)==c,col(1)==c,col(0)==-c,c<0?gapdn(3,4):gapup(3,4),c*H(2)>c*H(3),c*L(2)>c*L(3),c*H(1)>c*H(2),c*L(1)>c*L(2),c*C(0)<c*O(3),c*C(0)>c*C(4)})?-100*c:0;}},
 {"CDLCLOSINGMARUBOZU",0,LBK(mx({P(BL),P(SVS)})),DO{return all({lng(0),white(0)?noup(0):nolow(0)})?100*col(0):0;}},
 {"CDLCONCEALBABYSWALL",3,LBK(P(SVS)+3),DO{return all({black(3),black(2),black(1),black(0),nolow(3),noup(3),nolow(2),noup(2),gapdn(1,2),us(1)>avg(SVS,1),H(1)>C(2),H(0)>H(1),L(0)<L(1)})?100:0;}},
 {"CDLCOUNTERATTACK",1,LBK(mx({P(EQ),P(BL)})+1),DO{return all({col(1)==-col(0),lng(1),lng(0),eqv(C(0),C(1),1)})?100*col(0):0;}},
 {"CDLDARKCLOUDCOVER",1,LBK(P(BL)+1),DO{return all({white(1),lng(1),black(0),O(0)>H(1),C(0)>O(1),C(0)<C(1)-pen(1,PEN)})?-100:0;}},
 {"CDLDOJI",0,LBK(P(BD)),DO{return all({doji(0)})?100:0;}},
 {"CDLDOJISTAR",1,LBK(mx({P(BD),P(BL)})+1),DO{return all({lng(1),doji(0),white(1)?gapup(0,1):gapdn(0,1)})?-100*col(1):0;}},
 {"CDLDRAGONFLYDOJI",0,LBK(mx({P(BD),P(SVS)})),DO{return all({doji(0),noup(0),ls(0)>avg(SVS,0)})?100:0;}},
 {"CDLENGULFING",1,LBK(2),DO{int c=col(0);if(!all({col(1)==-c,c>0?C(0)>=O(1):O(0)>=C(1),c>0?O(0)<=C(1):C(0)<=O(1),!(hi(0)==hi(1)&&lo(0)==lo(1))}))return 0;return hi(0)>hi(1)&&lo(0)<lo(1)?100*c:80*c;}},
 {"CDLEVENINGDOJISTAR",2,LBK(mx({P(BD),P(BL),P(BS)})+2),DO{return all({lng(2),white(2),doji(1),gapup(1,2),moves(0),black(0),C(0)<C(2)-pen(2,PEN)})?-100:0;}},
 {"CDLEVENINGSTAR",2,LBK(mx({P(BS),P(BL)})+2),DO{return all({lng(2),white(2),notlong_s(1),gapup(1,2),moves(0),black(0),C(0)<C(2)-pen(2,PEN)})?-100:0;}},
 {"CDLGAPSIDESIDEWHITE",2,LBK(mx({P(NEAR),P(EQ)})+2),DO{double n=avg(NEAR,1);bool u=gapup(1,2);return all({(u&&gapup(0,2))||(gapdn(1,2)&&gapdn(0,2)),white(1),white(0),rb(0)>=rb(1)-n,rb(0)<=rb(1)+n,eqv(O(0),O(1),1)})?(u?100:-100):0;}},
 {"CDLGRAVESTONEDOJI",0,LBK(mx({P(BD),P(SVS)})),DO{return all({doji(0),nolow(0),us(0)>avg(SVS,0)})?100:0;}},
 {"CDLHAMMER",1,LBK(mx({P(BS),P(SL),P(SVS),P(NEAR)})+1),DO{return all({shrt(0),ls(0)>avg(SL,0),noup(0),lo(0)<=L(1)+avg(NEAR,1)})?100:0;}},
 {"CDLHANGINGMAN",1,LBK(mx({P(BS),P(SL),P(SVS),P(NEAR)})+1),DO{return all({shrt(0),ls(0)>avg(SL,0),noup(0),lo(0)>=H(1)-avg(NEAR,1)})?-100:0;}},
 {"CDLHARAMI",1,LBK(mx({P(BS),P(BL)})+1),DO{if(!all({lng(1),notlong_s(0),hi(0)<=hi(1),lo(0)>=lo(1)}))return 0;return -col(1)*(hi(0)<hi(1)&&lo(0)>lo(1)?100:80);}},
 {"CDLHARAMICROSS",1,LBK(mx({P(BD),P(BL)})+1),DO{if(!all({lng(1),doji(0),hi(0)<=hi(1),lo(0)>=lo(1)}))return 0;return -col(1)*(hi(0)<hi(1)&&lo(0)>lo(1)?100:80);}},
 {"CDLHIGHWAVE",0,LBK(mx({P(BS),P(SVL)})),DO{return all({shrt(0),us(0)>avg(SVL,0),ls(0)>avg(SVL,0)})?100*col(0):0;}},
 {"CDLHIKKAKE",5,LBK(5),DO{return confirmed(hik);}},
 {"CDLHIKKAKEMOD",6,LBK(mx({1,P(NEAR)})+5),DO{return confirmed(hikmod);}},
 {"CDLHOMINGPIGEON",1,LBK(mx({P(BS),P(BL)})+1),DO{return all({black(1),black(0),lng(1),notlong_s(0),O(0)<O(1),C(0)>C(1)})?100:0;}},
 {"CDLIDENTICAL3CROWS",2,LBK(mx({P(SVS),P(EQ)})+2),DO{return all({black(2),nolow(2),black(1),nolow(1),black(0),nolow(0),C(2)>C(1),C(1)>C(0),eqv(O(1),C(2),2),eqv(O(0),C(1),1)})?-100:0;}},
 {"CDLINNECK",1,LBK(mx({P(EQ),P(BL)})+1),DO{return all({black(1),lng(1),white(0),O(0)<L(1),C(0)<=C(1)+avg(EQ,1),C(0)>=C(1)})?-100:0;}},
 {"CDLINVERTEDHAMMER",1,LBK(mx({P(BS),P(SL),P(SVS)})+1),DO{return all({shrt(0),us(0)>avg(SL,0),nolow(0),gapdn(0,1)})?100:0;}},
 {"CDLKICKING",1,LBK(mx({P(SVS),P(BL)})+1),DO{return all({col(1)==-col(0),lng(1),noup(1),nolow(1),lng(0),noup(0),nolow(0),black(1)?wgapup(0,1):wgapdn(0,1)})?100*col(0):0;}},
 {"CDLKICKINGBYLENGTH",1,LBK(mx({P(SVS),P(BL)})+1),DO{return all({col(1)==-col(0),lng(1),noup(1),nolow(1),lng(0),noup(0),nolow(0),black(1)?wgapup(0,1):wgapdn(0,1)})?100*(rb(0)>rb(1)?col(0):col(1)):0;}},
 {"CDLLADDERBOTTOM",4,LBK(P(SVS)+4),DO{return all({black(4),black(3),black(2),O(4)>O(3),O(3)>O(2),C(4)>C(3),C(3)>C(2),black(1),us(1)>avg(SVS,1),white(0),O(0)>O(1),C(0)>H(1)})?100:0;}},
 {"CDLLONGLEGGEDDOJI",0,LBK(mx({P(BD),P(SL)})),DO{return all({doji(0),ls(0)>avg(SL,0)||us(0)>avg(SL,0)})?100:0;}},
 {"CDLLONGLINE",0,LBK(mx({P(BL),P(SS)})),DO{return all({lng(0),us(0)<avg(SS,0),ls(0)<avg(SS,0)})?100*col(0):0;}},
 {"CDLMARUBOZU",0,LBK(mx({P(BL),P(SVS)})),DO{return all({lng(0),noup(0),nolow(0)})?100*col(0):0;}},
 {"CDLMATCHINGLOW",1,LBK(P(EQ)+1),DO{return all({black(1),black(0),eqv(C(0),C(1),1)})?100:0;}},
 {"CDLMATHOLD",4,LBK(mx({P(BS),P(BL)})+4),DO{double fl=C(4)-pen(4,PEN);return all({lng(4),shrt(3),shrt(2),shrt(1),white(4),black(3),white(0),gapup(3,4),lo(2)<C(4),lo(1)<C(4),lo(2)>fl,lo(1)>fl,hi(2)<O(3),hi(1)<hi(2),O(0)>C(1),C(0)>H(3),C(0)>H(2),C(0)>H(1)})?100:0;}},
 {"CDLMORNINGDOJISTAR",2,LBK(mx({P(BD),P(BL),P(BS)})+2),DO{return all({lng(2),black(2),doji(1),gapdn(1,2),moves(0),white(0),C(0)>C(2)+pen(2,PEN)})?100:0;}},
 {"CDLMORNINGSTAR",2,LBK(mx({P(BS),P(BL)})+2),DO{return all({lng(2),black(2),notlong_s(1),gapdn(1,2),moves(0),white(0),C(0)>C(2)+pen(2,PEN)})?100:0;}},
 {"CDLONNECK",1,LBK(mx({P(EQ),P(BL)})+1),DO{return all({black(1),lng(1),white(0),O(0)<L(1),eqv(C(0),L(1),1)})?-100:0;}},
 {"CDLPIERCING",1,LBK(P(BL)+1),DO{return all({black(1),lng(1),white(0),lng(0),O(0)<L(1),C(0)<O(1),C(0)>C(1)+pen(1,0.5)})?100:0;}},
 {"CDLRICKSHAWMAN",0,LBK(mx({P(BD),P(SL),P(NEAR)})),DO{double m=(H(0)+L(0))/2,n=avg(NEAR,0);return all({doji(0),ls(0)>avg(SL,0),us(0)>avg(SL,0),lo(0)<=m+n,hi(0)>=m-n})?100:0;}},
 {"CDLRISEFALL3METHODS",4,LBK(mx({P(BS),P(BL)})+4),DO{int c=col(4);return all({lng(4),shrt(3),shrt(2),shrt(1),lng(0),col(3)==-c,col(2)==-c,col(1)==-c,col(0)==c,bodyin(3,4),bodyin(2,4),bodyin(1,4),c*C(2)<c*C(3),c*C(1)<c*C(2),c*O(0)>c*C(1),c*C(0)>c*C(4)})?100*c:0;}},
 {"CDLSEPARATINGLINES",1,LBK(mx({P(SVS),P(BL),P(EQ)})+1),DO{return all({col(1)==-col(0),eqv(O(0),O(1),1),lng(0),white(0)?nolow(0):noup(0)})?100*col(0):0;}},
 {"CDLSHOOTINGSTAR",1,LBK(mx({P(BS),P(SL),P(SVS)})+1),DO{return all({shrt(0),us(0)>avg(SL,0),nolow(0),gapup(0,1)})?-100:0;}},
 {"CDLSHORTLINE",0,LBK(mx({P(BS),P(SS)})),DO{return all({shrt(0),us(0)<avg(SS,0),ls(0)<avg(SS,0)})?100*col(0):0;}},
 {"CDLSPINNINGTOP",0,LBK(P(BS)),DO{return all({shrt(0),us(0)>rb(0),ls(0)>rb(0)})?100*col(0):0;}},
 {"CDLSTALLEDPATTERN",2,LBK(mx({P(BL),P(BS),P(SVS),P(NEAR)})+2),DO{return all({white(2),white(1),white(0),C(0)>C(1),C(1)>C(2),lng(2),lng(1),noup(1),O(1)>O(2),O(1)<=C(2)+avg(NEAR,2),shrt(0),O(0)>=C(1)-rb(0)-avg(NEAR,1)})?-100:0;}},
 {"CDLSTICKSANDWICH",2,LBK(P(EQ)+2),DO{return all({black(2),white(1),black(0),L(1)>C(2),eqv(C(0),C(2),2)})?100:0;}},
 {"CDLTAKURI",0,LBK(mx({P(BD),P(SVS),P(SVL)})),DO{return all({doji(0),noup(0),ls(0)>avg(SVL,0)})?100:0;}},
 {"CDLTASUKIGAP",2,LBK(P(NEAR)+2),DO{int c=col(1);return all({c>0?gapup(1,2):gapdn(1,2),col(0)==-c,O(0)<hi(1),O(0)>lo(1),c>0?C(0)<O(1):C(0)>O(1),c>0?C(0)>hi(2):C(0)<lo(2),fabs(rb(1)-rb(0))<avg(NEAR,1)})?100*c:0;}},
 {"CDLTHRUSTING",1,LBK(mx({P(EQ),P(BL)})+1),DO{return all({black(1),lng(1),white(0),O(0)<L(1),C(0)>C(1)+avg(EQ,1),C(0)<=C(1)+pen(1,0.5)})?-100:0;}},
 /* the three bodies are all measured against the doji threshold of the first candle */
 {"CDLTRISTAR",2,LBK(P(BD)+2),DO{double d=avg(BD,2);int r=0;if(all({rb(2)<=d,rb(1)<=d,rb(0)<=d,gapup(1,2),hi(0)<hi(1)}))r=-100;if(all({rb(2)<=d,rb(1)<=d,rb(0)<=d,gapdn(1,2),lo(0)>lo(1)}))r=100;return r;}},
 {"CDLUNIQUE3RIVER",2,LBK(mx({P(BS),P(BL)})+2),DO{return all({lng(2),black(2),black(1),C(1)>C(2),O(1)<=O(2),L(1)<L(2),shrt(0),white(0),O(0)>L(1)})?100:0;}},
 {"CDLUPSIDEGAP2CROWS",2,LBK(mx({P(BS),P(BL)})+2),DO{return all({white(2),lng(2),black(1),notlong_s(1),gapup(1,2),black(0),O(0)>O(1),C(0)<C(1),C(0)>C(2)})?-100:0;}},
 {"CDLXSIDEGAP3METHODS",2,LBK(2),DO{int c=col(2);return all({col(1)==c,col(0)==-c,O(0)<hi(1),O(0)>lo(1),C(0)<hi(2),C(0)>lo(2),c>0?gapup(1,2):gapdn(1,2)})?100*c:0;}},
};
static const Pat*find(const char*n){for(auto&p:PATS)if(!strcmp(p.n,n))return &p;return nullptr;}
static void use(const Series&S,int i){O_=&S.O;H_=&S.H;L_=&S.L;C_=&S.C;I=i;}
static int eval(const Pat&p,const Series&S,int i,double eps,double*score=nullptr){use(S,i);EPS=eps;BEST=0;int r=p.f();EPS=0;if(score)*score=BEST;return r;}
static void fix(Series&S,int j){S.H[j]=fmax(S.H[j],fmax(S.O[j],S.C[j]));S.L[j]=fmin(S.L[j],fmin(S.O[j],S.C[j]));}
static const double UNIT=0.25;
static void setbar(Series&S,int j,double o,double c,double u,double l){S.O[j]=o;S.C[j]=c;S.H[j]=fmax(o,c)+u;S.L[j]=fmin(o,c)-l;}
static double any(Rng&R,const Series&S,int a,int n){int j=R.in(a,n-1);switch(R.in(0,4)){case 0:return S.O[j];case 1:return S.C[j];case 2:return S.H[j];case 3:return S.L[j];default:return (S.O[j]+S.C[j])/2;}}
/* one change to one of the bars a..n-1 */
static void mutate(Rng&R,Series&S,int a,int n,double big){
  int j=R.in(a,n-1);double d=R.in(-1,1)*UNIT;if(R.p(.2))d=R.in(-30,30)*UNIT*big;
  switch(R.in(0,9)){
   case 0:S.O[j]=any(R,S,a,n)+d;break;case 1:S.C[j]=any(R,S,a,n)+d;break;
   case 2:S.H[j]=any(R,S,a,n)+d;break;case 3:S.L[j]=any(R,S,a,n)+d;break;
   case 4:{double x=R.in(-40,40)*UNIT;S.O[j]+=x;S.H[j]+=x;S.L[j]+=x;S.C[j]+=x;break;}
   case 5:{double u=S.H[j]-fmax(S.O[j],S.C[j]),l=fmin(S.O[j],S.C[j])-S.L[j];setbar(S,j,S.C[j],S.O[j],u,l);break;}
   case 6:{double u=S.H[j]-fmax(S.O[j],S.C[j]),l=fmin(S.O[j],S.C[j])-S.L[j];setbar(S,j,S.O[j],S.O[j]+(R.p(.5)?1:-1)*R.in(0,R.p(.3)?2:50)*UNIT,u,l);break;}
   case 7:S.H[j]=fmax(S.O[j],S.C[j])+R.in(0,R.p(.5)?1:40)*UNIT;break;case 8:S.L[j]=fmin(S.O[j],S.C[j])-R.in(0,R.p(.5)?1:40)*UNIT;break;
   default:{ /* a body or shadow exactly on one of the thresholds */
     use(S,j);int st=R.in(0,10);if(j<T[st].per){S.C[j]=S.O[j];break;}double v=avg(st,0);v=floor(v/0.015625+.5)*0.015625;double u=us(0),l=ls(0);
     switch(R.in(0,3)){case 0:setbar(S,j,S.O[j],S.O[j]+v*(R.p(.5)?1:-1),u,l);break;case 1:S.H[j]=hi(0)+v;break;case 2:S.L[j]=lo(0)-v;break;
       default:{double x=any(R,S,a,n)+(R.p(.5)?v:-v);if(R.p(.5))S.O[j]=x;else S.C[j]=x;}}
   }}
  fix(S,j);}
static bool dy(double v){return v*64==floor(v*64);}
static void gen_settings(Rng&R,std::string&log){
  for(int i=0;i<11;i++)T[i]=DEF[i];
  if(R.p(.3))return;
  bool exact=R.p(.5),loose=R.p(.3);int steps=R.in(1,14);
  static const double fac[]={0,0.05,0.1,0.2,0.5,0.6,1,1.5,2,3},facd[]={0,0.25,0.5,1,1,2,0.125,0.75};static const int pd[]={0,1,2,4,8,16,0,4};auto hair=[&](double v){return exact&&R.p(.08)?v*(1+ldexp(R.p(.5)?1:-1,-30)):v;};   /* factors that single precision cannot hold */
  auto wide=[&](int p){if(!R.p(.002))return p;stat_add("wide_averages");return exact?(R.p(.5)?128:256):R.in(19,300);};
  if(exact)for(int i=0;i<11;i++){Set s={DEF[i].rt,DEF[i].per?pd[R.in(0,7)]:0,DEF[i].fac<.3?0.125:DEF[i].fac<1?0.5:DEF[i].fac<2?1.0:2.0};if(TA_SetCandleSettings((TA_CandleSettingType)i,(TA_RangeType)s.rt,s.per,s.fac)){violate("TA_SetCandleSettings","rc","setting %d refused",i);return;}T[i]=s;char b[64];snprintf(b,64,"set %d:%d/%d/%g,",i,s.rt,s.per,s.fac);log+=b;}
  for(int k=0;k<steps;k++){int i=R.in(0,10);char b[64];
    if(R.p(.15)){bool a=R.p(.2);if(TA_RestoreCandleDefaultSettings((TA_CandleSettingType)(a?11:i)))violate("TA_RestoreCandleDefaultSettings","rc","setting %d refused",i);if(a){for(int j=0;j<11;j++)T[j]=DEF[j];}else T[i]=DEF[i];snprintf(b,64,"restore %d,",a?11:i);log+=b;continue;}
    Set s;s.rt=R.in(0,2);s.per=exact?pd[R.in(0,7)]:R.p(.15)?0:R.in(1,R.p(.7)?8:18);s.per=wide(s.per);s.fac=exact?facd[R.in(0,7)]:fac[R.in(0,9)];
    if(loose)switch(i){case BL:case BVL:case SL:case SVL:case FAR:s.fac=exact?0.25:R.d(0,.5);break;default:s.fac=exact?2:R.d(.8,4);}
    s.fac=hair(s.fac);
    if(TA_SetCandleSettings((TA_CandleSettingType)i,(TA_RangeType)s.rt,s.per,s.fac))violate("TA_SetCandleSettings","rc","setting %d refused",i);
    T[i]=s;snprintf(b,64,"set %d:%d/%d/%.17g,",i,s.rt,s.per,s.fac);log+=b;}
}
static bool exact_settings(){for(int i=0;i<11;i++){if(T[i].per&(T[i].per-1))return false;if(!dy(T[i].fac)&&!dy(T[i].fac/(1+ldexp(1,-30)))&&!dy(T[i].fac/(1-ldexp(1,-30))))return false;}return dy(PEN);}
/* all bars of the series through batch, float and stream against the model */
static bool check(const Fn&f,const Pat&p,const Series&S,const double*o,int s,bool grid,const std::string&log,bool streams,Rng&R){
  int n=S.n,lb=p.lb();std::vector<const double*>in;ins_of(f,S,in);
  int e=n-1;Out r=run_batch(f,s,e,in.data(),o);int s0=std::max(s,lb),nb=expect_nb(s,e,lb);
  if(r.rc||r.n!=nb||(nb&&r.b!=s0)){violate(f.name,"range","rc=%d beg=%d nb=%d expected beg=%d nb=%d (s=%d e=%d lookback %d) settings:%s",r.rc,r.b,r.n,s0,nb,s,e,lb,log.c_str());return false;}
  Out q,fl;VI rcs;if(streams)q=run_state(f,n,in.data(),o,&rcs);
  bool fok=streams&&grid;if(fok){std::vector<float> v[4];const float*fin[4];for(int k=0;k<4;k++){v[k].assign(in[k],in[k]+n);for(int i=0;i<n;i++)if((double)v[k][i]!=in[k][i]){fok=false;break;}fin[k]=v[k].data();}if(fok)fl=run_float(f,s,e,fin,o);if(fok&&(fl.rc||fl.n!=nb)){violate(f.name,"float-range","rc=%d nb=%d expected %d settings:%s",fl.rc,fl.n,nb,log.c_str());return false;}}
  bool ex=grid&&exact_settings();
  for(int t=lb;t<n;t++){double sc;int m=eval(p,S,t,0,&sc);
    int m1=m,m2=m;bool alt=false;
    auto okv=[&](int v){if(v==m)return true;if(ex)return false;if(!alt){m1=eval(p,S,t,1e-12);m2=eval(p,S,t,-1e-12);alt=true;}if(v==m1||v==m2){stat_add("rounding_ties");return true;}return false;};
    auto bad=[&](const char*form,int v){violate(f.name,"pattern","%s bar %d: %d, by definition %d (bars %s) penetration %g settings:%s data:%s",form,t,v,m,[&]{std::string x;char b[120];for(int j=std::max(0,t-6);j<=t;j++){snprintf(b,120,"[%.17g %.17g %.17g %.17g]",S.O[j],S.H[j],S.L[j],S.C[j]);x+=b;}return x;}().c_str(),PEN,log.c_str(),S.tag);};
    if(m){stat_add("firings");if(m==80||m==-80||m==200||m==-200)stat_add("graded_firings");}else if(sc>0.7)stat_add("near_misses");
    if(t>=s0){int v=r.iv[0][t-s0];if(!okv(v)){bad("batch",v);return false;}stat_add("values_checked");if(v){static std::map<std::string,std::string> nm;std::string&x=nm[f.name];if(x.empty())x=std::string("fired_")+f.name;stat_add(x.c_str());}
      if(fok){v=fl.iv[0][t-s0];if(!okv(v)){bad("float",v);return false;}stat_add("float_values_checked");}}
    if(streams){if(rcs[t]){violate(f.name,"stream-rc","bar %d rc=%d lookback %d settings:%s",t,rcs[t],lb,log.c_str());return false;}int v=q.iv[0][t];if(!okv(v)){bad("stream",v);return false;}stat_add("stream_values_checked");}}
  if(streams)for(int t=0;t<std::min(lb,n);t++)if(rcs[t]!=17){violate(f.name,"stream-rc","bar %d rc=%d lookback %d settings:%s",t,rcs[t],lb,log.c_str());return false;}
  (void)R;return true;}
}
static void cdl_case(const Fn&f,const Pat*p,Rng&R,const std::string&log,bool random_ok,bool count){
  double o[8];gen_opts(R,f,o);if(f.nOpt&&R.p(.5)){static const double pd[]={0,0.25,0.5,1,0.75,2,0.125};o[0]=pd[R.in(0,6)];}
  double ro[8];resolve_opts(f,o,ro);PEN=f.nOpt?ro[0]:0;
  int lb=p->lb(),l2=f.lookback(o);if(lb!=l2){violate(f.name,"lookback","lookback %d, the definition refers to %d bars, settings:%s",l2,lb,log.c_str());return;}
  if(random_ok&&R.p(.4)){Series S;int n=lb+R.in(1,80),g=R.p(.6)?GRID_DYADIC:-1;gen_series(R,n,S,g);int s=R.p(.5)?R.in(0,lb):R.in(0,n-1);if(count)seen(case_hash(f,o,s,n-1,S)^mix64(hstr(log.c_str())),true);
    check(f,*p,S,o,s,g==GRID_DYADIC,log,R.p(.5),R);return;}
  /* directed search for a window that satisfies the definition */
  int n=lb+R.in(1,7);Series S;gen_series(R,n,S,GRID_DYADIC,7);S.tag="directed";double x=100+R.in(-20,20);
  for(int j=0;j<n;j++){double b=R.in(0,20)*UNIT*(R.p(.5)?1:-1);setbar(S,j,x,x+b,R.in(0,10)*UNIT,R.in(0,10)*UNIT);x+=R.in(-12,12)*UNIT;}
  int t=n-1,a=std::max(0,t-p->back);double best;int fire=eval(*p,S,t,0,&best);
  if(strstr(f.name,"HIKKAKE"))for(int k=0;k<3000&&!fire;k++){ /* search the pattern at an earlier bar half the time, its confirmation counts as firing */
    Series Q=S;mutate(R,Q,a,n,1);if(R.p(.4))mutate(R,Q,a,n,1);double sc;fire=eval(*p,Q,t,0,&sc);if(fire||sc>=best){S=Q;best=sc;}}
  else for(int k=0;k<1500&&!fire;k++){Series Q=S;mutate(R,Q,a,n,1);if(R.p(.3))mutate(R,Q,a,n,1);if(R.p(.03))mutate(R,Q,0,n,1);double sc;fire=eval(*p,Q,t,0,&sc);if(fire||sc>=best){S=Q;best=sc;}}
  if(fire)stat_add("directed_windows");
  if(count)seen(case_hash(f,o,0,n-1,S)^mix64(hstr(log.c_str())),true);
  if(!check(f,*p,S,o,0,true,log,true,R))return;
  for(int k=0;k<24;k++){Series Q=S;if(R.p(.12))mutate(R,Q,0,n,.2);else mutate(R,Q,a,n,.1);if(R.p(.15))mutate(R,Q,a,n,.1);if(count)seen(case_hash(f,o,0,n-1,Q)^mix64(hstr(log.c_str())+k),true);if(!check(f,*p,Q,o,R.p(.7)?0:R.in(0,n-1),true,log,R.p(.3),R))return;}
  if(fire&&R.p(.01))sample("%s: window of %d bars gives %d, 24 neighbours checked, settings:%s",f.name,n,fire,log.c_str());
}
/* C23: a candlestick function must obey the settings given, however they were reached */
void cdl_probe(const Fn&f,Rng&R,const int*rt,const int*per,const double*fac,const std::string&log){const Pat*p=find(f.name);if(!p)return;for(int i=0;i<11;i++)T[i]={rt[i],per[i],fac[i]};cdl_case(f,p,R,log,false,false);}
PROPERTY(C17){
  each_case("C17",600,[&](const Fn&f,Rng&R,long){
    const Pat*p=find(f.name);struct Rst{~Rst(){TA_RestoreCandleDefaultSettings(TA_AllCandleSettings);}}rst;
    std::string log;gen_settings(R,log);cdl_case(f,p,R,log,true,true);
  },[](const Fn&f){return find(f.name)!=nullptr;});
}
