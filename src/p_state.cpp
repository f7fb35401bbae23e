/* C06..C09: streaming properties */
#include "core.h"
#include <errno.h>
uint64_t case_hash(const Fn&f,const double*o,int s,int e,const Series&S);
bool var_degenerate(const Fn&f,const double*o,const double*const*in,int n,int bar);
/* one value of a stream against the batch value for the same bar; true = agree (or not decidable because ill-conditioned) */
static bool agree(const Fn&f,const double*o,const double*const*in,int n,int lb,int k,int bar,double x,double y,double sc,int win){
  if(idx_output(f)){int p=(int)x,q=(int)y;   /* equal extremes may be reported at any of their positions inside the window */
    return q>=0&&q<=bar&&q>bar-win&&in[0][p]==in[0][q];}
  if(f.outInt[k]?x==y:close(x,y,1e-11,1e-12*fmax(1,sc)))return true;
  bool coarse=!f.outInt[k]&&close(x,y,1e-7,1e-9*sc);if(coarse){stat_add("fine_comparisons");if(bar>=1000||no_fine(f))return true;}   /* more than rounding, unless the conditioning explains it */
  if(var_degenerate(f,o,in,n,bar)){stat_add("ill_conditioned");return true;}
  double w=wobble(f,0,n-1,n,in,o,k,bar-lb,1e-12);
  if(f.outInt[k]?w>0:fabs(x-y)<=1000*w||w>1e-3*sc){stat_add(coarse?"fine_explained":"ill_conditioned");return true;}
  return false;}
/* STOCHRSI: an RSI that stands still up to rounding (decaying gains and losses keep their ratio) has a meaningless %K */
static bool rsi_still(const double*x,int bar,const double*ro){const Fn&q=*find_fn("RSI");double o[1]={ro[0]};const double*in[1]={x};Out a=run_batch(q,0,bar,in,o);int K=(int)ro[1];if(a.rc)return false;
  for(int i=K-1;i<a.n;i++){double lo=1e9,hi=-1e9;for(int j=0;j<K;j++){double v=a.at(q,0,i-j);lo=fmin(lo,v);hi=fmax(hi,v);}if(hi-lo<1e-7&&lo>1e-9&&hi<100-1e-9)return true;}return false;}
PROPERTY(C06){
  g_bigrate=0.001;g_longrate=0.002;
  each_case("C06",500,[](const Fn&f,Rng&R,long c){
    Globals G(R,0.25,0.12,f.flags&FL_CDL?0.6:0);double o[8];gen_opts(R,f,o);
    if(is(f,"MACDEXT")&&G.meta)TA_SetCompatibility(TA_COMPATIBILITY_DEFAULT),G.meta=false;   /* Metastock seeds from bar 0 of the array the caller passes: not expressible per bar once one average is delayed */
    int lb=f.lookback(o);if(lb<0)return;
    int n=lb+gen_len(R,R.in(1,140));Series S;gen_series(R,n,S,GRID_DYADIC);if(R.p(.2)&&!no_fine(f))refine(R,S);std::vector<const double*>in;ins_of(f,S,in);
    bool mavp=is(f,"MAVP");
    if(mavp){double r[8];resolve_opts(f,o,r);for(double&v:S.p)v=r[1]+R.in(0,5);}       /* see the separate variable-period case */
    double ro[8];resolve_opts(f,o,ro);int win=idx_output(f)?(int)ro[0]:0;
    Out a=run_batch(f,0,n-1,in.data(),o);VI rcs;int irc;Out b=run_state(f,n,in.data(),o,&rcs,&irc);
    seen(case_hash(f,o,0,n-1,S),true);
    if(irc){violate(f.name,"init-rc","StateInit rc=%d opts:%s",irc,opts_str(f,o).c_str());return;}
    if(a.rc||a.n!=n-lb){stat_add("skipped_batch");return;}
    double sc=fmax(1e-3,in_scale(f,S))*fmax(1,n/4000.)*(n>4000&&is(f,"LINEARREG_ANGLE")?60:1);   /* running sums drift over very long series */
    for(int i=0;i<n;i++){int want=i<lb?17:0;if(rcs[i]!=want){violate(f.name,"stream-rc","bar %d rc=%d expected %d (lookback %d) %sopts:%s",i,rcs[i],want,lb,G.str().c_str(),opts_str(f,o).c_str());return;}}
    for(int k=0;k<f.nOut;k++)for(int i=lb;i<n;i++){double x=a.at(f,k,i-lb),y=b.at(f,k,i);
      if(f.outInt[k]&&(f.flags&FL_CDL)&&x!=0)stat_add("pattern_firings");
      if(!agree(f,o,in.data(),n,lb,k,i,x,y,sc,win)){
        if(hilbert(f,ro)&&flat(f,S,i)){stat_add("ill_conditioned");continue;}   /* the phase of an exactly vanishing cycle component is rounding */
        if(is(f,"STOCHRSI")&&((k==1&&(ro[3]==6||ro[3]==7))||rsi_still(in[0],i,ro))){stat_add("ill_conditioned");continue;}
        violate(f.name,"stream-value","bar %d out#%d batch %.17g stream %.17g lb=%d %sopts:%s data:%s",i,k,x,y,lb,G.str().c_str(),opts_str(f,o).c_str(),S.tag);k=3;break;}}
    stat_add("bars",n);stat_add("outputs_compared",n-lb);if(G.unst)stat_add("unstable_period_cases");if(G.meta)stat_add("metastock_cases");if(!G.cs.empty())stat_add("candle_setting_cases");
    if(R.p(0.001))sample("%s fed %d bars (%s): batch == stream, lookback %d, %sopts:%s",f.name,n,S.tag,lb,G.str().c_str(),opts_str(f,o).c_str());
  });
  /* deterministic: MAVP with periods that vary below the maximum */
  if(OPT.fn.empty()?OPT.shard==0:OPT.fn=="MAVP"){const Fn&f=*find_fn("MAVP");Rng R(7);prog("MAVP",-2,"variable");Series S;gen_series(R,40,S,GRID_DYADIC,0);for(int i=0;i<40;i++)S.p[i]=2+i%5;
    double o[3]={2,8,0};std::vector<const double*>in;ins_of(f,S,in);int lb=f.lookback(o);Out a=run_batch(f,0,39,in.data(),o);VI rcs;Out b=run_state(f,40,in.data(),o,&rcs);g_curcase=-2;
    for(int i=lb;i<40;i++)if(!close(a.at(f,0,i-lb),b.at(f,0,i),1e-7,1e-6)){violate("MAVP","stream-variable-period","bar %d period %g: batch %.9g stream %.9g (minPeriod 2, maxPeriod 8, SMA)",i,S.p[i],a.at(f,0,i-lb),b.at(f,0,i));break;}}
}
/* ---------------- helpers on one live stream ---------------- */
struct StepOut{int rc;double d[3];int i[3];};
static StepOut step1(const Fn&f,void*st,const double*const*in,int bar){StepOut r;double x[5];for(int j=0;j<f.nIn;j++)x[j]=in[j][bar];void*out[3];
  for(int k=0;k<f.nOut;k++){r.d[k]=-12345.5;r.i[k]=-99999;out[k]=f.outInt[k]?(void*)&r.i[k]:(void*)&r.d[k];}
  r.rc=f.sstep(st,x,out);return r;}
static bool same_step(const Fn&f,const StepOut&a,const StepOut&b){if(a.rc!=b.rc)return false;if(a.rc)return true;
  for(int k=0;k<f.nOut;k++)if(f.outInt[k]?a.i[k]!=b.i[k]:!(same_bits(a.d[k],b.d[k])||(isnan(a.d[k])&&isnan(b.d[k]))))return false;return true;}
static std::string step_str(const Fn&f,const StepOut&a){char b[200];std::string s;snprintf(b,200,"rc=%d",a.rc);s=b;for(int k=0;k<f.nOut;k++){if(f.outInt[k])snprintf(b,200," %d",a.i[k]);else snprintf(b,200," %.17g",a.d[k]);s+=b;}return s;}
/* ------------------------------------------------------------------ C07 */
PROPERTY(C07){
  g_bigrate=0.0005;g_longrate=0.001;
  each_case("C07",400,[](const Fn&f,Rng&R,long){
    Globals G(R,0.15,0.08,f.flags&FL_CDL?0.3:0);double o[8];gen_opts(R,f,o);int lb=f.lookback(o);if(lb<0)return;
    int n=lb+gen_len(R,R.in(1,110));Series S;gen_series(R,n,S);if(R.p(0.05))poison_series(R,S);std::vector<const double*>in;ins_of(f,S,in);
    void*a=nullptr,*b=nullptr;if(f.sinit(&a,o)||f.sinit(&b,o)){violate(f.name,"init-rc","StateInit failed opts:%s",opts_str(f,o).c_str());if(a)f.sfree(&a);if(b)f.sfree(&b);return;}
    seen(case_hash(f,o,0,n-1,S),true);bool ok=true;
    for(int i=0;i<n&&ok;){
      int len=R.p(0.3)?1:R.p(0.1)?n-i:R.in(1,R.p(0.5)?8:60);if(len>n-i)len=n-i;
      if(len==1&&R.p(0.5)){StepOut x=step1(f,a,in.data(),i),y=step1(f,b,in.data(),i);if(!same_step(f,x,y)){violate(f.name,"step-diverged","bar %d %s vs %s %sopts:%s",i,step_str(f,x).c_str(),step_str(f,y).c_str(),G.str().c_str(),opts_str(f,o).c_str());ok=false;}i++;stat_add("single_steps");continue;}
      /* the chunk [i,i+len-1], sometimes through pointers whose index 0 is the chunk itself, sometimes in place */
      bool rebase=R.p(0.4),inplace=R.p(0.25)&&n<6000;int s=rebase?0:i,e=s+len-1;
      std::vector<VD>cp;std::vector<const double*>p;for(int j=0;j<f.nIn;j++){if(inplace){cp.emplace_back(in[j],in[j]+n);p.push_back(cp.back().data()+(rebase?i:0));}else p.push_back(in[j]+(rebase?i:0));}
      if(inplace)for(int j=0;j<f.nIn;j++)p[j]=cp[j].data()+(rebase?i:0);
      VD dv[3];VI iv[3];void*out[3];int al=0;for(int k=0;k<f.nOut;k++){if(f.outInt[k]){iv[k].assign(len+2,-424242);out[k]=iv[k].data();}else if(inplace&&al<f.nIn){out[k]=(void*)p[al++];}else{dv[k].assign(len+2,-424242.5);out[k]=dv[k].data();}}
      int ob=-5,on=-5;int rc=f.sbatch(a,s,e,p.data(),&ob,&on,out);
      if(ob!=s||on!=len){violate(f.name,"batchstate-range","outBegIdx=%d expected %d outNBElement=%d expected %d rc=%d %sopts:%s",ob,s,on,len,rc,G.str().c_str(),opts_str(f,o).c_str());ok=false;break;}
      int last=0;
      for(int t=0;t<len&&ok;t++){StepOut y=step1(f,b,in.data(),i+t);last=y.rc;
        for(int k=0;k<f.nOut;k++){
          if(f.outInt[k]){int w=y.rc==0?y.i[k]:INT_MAX;if(((int*)out[k])[t]!=w){violate(f.name,"batchstate-value","chunk [%d,%d] element %d out#%d %d, step by step %d (rc %d) %sopts:%s",i,i+len-1,t,k,((int*)out[k])[t],w,y.rc,G.str().c_str(),opts_str(f,o).c_str());ok=false;break;}}
          else{double w=y.rc==0?y.d[k]:NAN,g=((double*)out[k])[t];if(!(same_bits(w,g)||(isnan(w)&&isnan(g)))){violate(f.name,"batchstate-value","chunk [%d,%d] element %d out#%d %.17g, step by step %.17g (rc %d)%s %sopts:%s",i,i+len-1,t,k,g,w,y.rc,inplace?" in place":"",G.str().c_str(),opts_str(f,o).c_str());ok=false;break;}}}
        if(y.rc==17)stat_add("unprimed_elements");else stat_add("primed_elements");}
      if(ok&&rc!=last){violate(f.name,"batchstate-rc","chunk [%d,%d] rc=%d, last step rc=%d opts:%s",i,i+len-1,rc,last,opts_str(f,o).c_str());ok=false;}
      for(int k=0;k<f.nOut&&ok;k++){if(f.outInt[k]?(iv[k][len]!=-424242):(!dv[k].empty()&&dv[k][len]!=-424242.5)){violate(f.name,"batchstate-overrun","wrote past the %d elements of the chunk, out#%d",len,k);ok=false;}}
      stat_add("chunks");i+=len;
      if(R.p(0.1)){ /* an empty range touches nothing */
        int b2=-5,n2=-5;int rc2=f.sbatch(a,3,2,in.data(),&b2,&n2,out);if(rc2||b2!=0||n2!=0){violate(f.name,"batchstate-empty","empty range rc=%d begIdx=%d nb=%d",rc2,b2,n2);ok=false;}stat_add("empty_ranges");}
    }
    f.sfree(&a);f.sfree(&b);
    if(R.p(0.001))sample("%s: %d bars in random chunks equal the step-by-step stream, %sopts:%s",f.name,n,G.str().c_str(),opts_str(f,o).c_str());
  });
}
/* ------------------------------------------------------------------ C08 */
static std::string slurp(FILE*f){std::string s;rewind(f);char b[4096];size_t k;while((k=fread(b,1,sizeof b,f))>0)s.append(b,k);return s;}
struct MemFile{char*buf=nullptr;size_t len=0;FILE*f;MemFile(){f=open_memstream(&buf,&len);}std::string done(){fclose(f);f=nullptr;std::string s(buf,len);free(buf);buf=nullptr;return s;}~MemFile(){if(f){fclose(f);free(buf);}}};
static int save_to(const Fn&f,void*st,std::string&bytes){MemFile m;int rc=f.ssave(st,m.f);bytes=m.done();return rc;}
static int load_from(const Fn&f,void**st,const std::string&bytes,long*pos){std::string c=bytes;if(c.empty())c.push_back(0);FILE*F=fmemopen(&c[0],c.size(),"rb");setvbuf(F,nullptr,_IONBF,0);int rc=f.sload(st,F);if(pos)*pos=ftell(F);fclose(F);return rc;}
PROPERTY(C08){
  g_bigrate=0.0005;g_longrate=0.001;
  each_case("C08",300,[](const Fn&f,Rng&R,long){
    Globals G(R,0.2,0.1,f.flags&FL_CDL?0.3:0);double o[8];gen_opts(R,f,o);int lb=f.lookback(o);if(lb<0)return;
    int n=lb+gen_len(R,R.in(2,90));Series S;gen_series(R,n,S);std::vector<const double*>in;ins_of(f,S,in);
    void*a=nullptr,*b=nullptr;if(f.sinit(&a,o)||f.sinit(&b,o)){violate(f.name,"init-rc","StateInit failed opts:%s",opts_str(f,o).c_str());if(a)f.sfree(&a);if(b)f.sfree(&b);return;}
    seen(case_hash(f,o,0,n-1,S),true);
    /* a runs undisturbed; b is saved, freed and reloaded at random points */
    int cut=R.p(0.15)?0:R.p(0.25)?R.in(0,lb<n?lb:n-1):R.in(0,n-1),cut2=R.p(0.4)?R.in(cut,n-1):-1;bool ok=true;
    for(int i=0;i<n&&ok;i++){
      if(i==cut||i==cut2){
        std::string s1,s2;int rc=save_to(f,b,s1);
        if(rc){violate(f.name,"save-rc","StateSave rc=%d before bar %d opts:%s",rc,i,opts_str(f,o).c_str());ok=false;break;}
        void*c=nullptr;long pos=-1;
        std::string two=s1+std::string("trailing data of the caller");
        rc=load_from(f,&c,two,&pos);
        if(rc||!c){violate(f.name,"load-rc","StateLoad rc=%d before bar %d opts:%s",rc,i,opts_str(f,o).c_str());ok=false;if(c)f.sfree(&c);break;}
        if(pos!=(long)s1.size()){violate(f.name,"load-consumed","StateSave wrote %zu bytes, StateLoad consumed %ld opts:%s",s1.size(),pos,opts_str(f,o).c_str());ok=false;}
        rc=save_to(f,c,s2);if(ok&&(rc||s1!=s2)){size_t d=0;while(d<s1.size()&&d<s2.size()&&s1[d]==s2[d])d++;violate(f.name,"resave-differs","saving the reloaded state gives other bytes (sizes %zu/%zu, first difference at %zu) before bar %d opts:%s",s1.size(),s2.size(),d,i,opts_str(f,o).c_str());ok=false;}
        stat_add("saves");stat_add("saved_bytes",s1.size());
        if(R.p(0.5)){f.sfree(&b);b=c;}                     /* continue with the loaded one ... */
        else{ /* ... or keep the original: saving must not have disturbed it; and run the copy alongside for a while */
          void*a2=nullptr;std::string sa;save_to(f,a,sa);load_from(f,&a2,sa,nullptr);
          int k=R.in(1,20);for(int j=i;j<n&&j<i+k&&ok;j++){StepOut x=step1(f,a2,in.data(),j),y=step1(f,c,in.data(),j);if(!same_step(f,x,y)){violate(f.name,"reloaded-diverged","bar %d (saved before %d): %s vs %s opts:%s",j,i,step_str(f,x).c_str(),step_str(f,y).c_str(),opts_str(f,o).c_str());ok=false;}}
          f.sfree(&c);if(a2)f.sfree(&a2);}
      }
      if(!ok)break;
      StepOut x=step1(f,a,in.data(),i),y=step1(f,b,in.data(),i);stat_add("bars");
      if(!same_step(f,x,y)){violate(f.name,"reloaded-diverged","bar %d (saved before bars %d,%d): uninterrupted %s, reloaded %s lb=%d %sopts:%s data:%s",i,cut,cut2,step_str(f,x).c_str(),step_str(f,y).c_str(),lb,G.str().c_str(),opts_str(f,o).c_str(),S.tag);ok=false;}
    }
    if(a)f.sfree(&a);if(b)f.sfree(&b);
    if(R.p(0.001))sample("%s saved before bars %d,%d of %d (lookback %d): continuation identical, opts:%s",f.name,cut,cut2,n,lb,opts_str(f,o).c_str());
  });
  /* several states of different functions in one file; NULL states */
  if(OPT.shard==0&&OPT.fn.empty()){Rng R(OPT.seed*77+5);
    for(int rep=0;rep<60;rep++){
      struct L{const Fn*f;void*st;double o[8];};std::vector<L>v;Series S;gen_series(R,60,S);
      for(int k=0;k<30;k++){L l;l.f=&FNS[R.in(0,NFN-1)];l.st=nullptr;gen_opts(R,*l.f,l.o,20);prog(l.f->name,-3,"multi-state file");if(R.p(0.15)){v.push_back(l);continue;}
        if(l.f->sinit(&l.st,l.o))continue;std::vector<const double*>in;ins_of(*l.f,S,in);int m=R.in(0,30);for(int i=0;i<m;i++)step1(*l.f,l.st,in.data(),i);v.push_back(l);}
      std::string all;{MemFile m;for(auto&l:v){prog(l.f->name,-3,"save");l.f->ssave(l.st,m.f);}all=m.done();}
      FILE*F=fmemopen(&all[0],all.size(),"rb");
      for(auto&l:v){void*c=nullptr;prog(l.f->name,-3,"load");int rc=l.f->sload(&c,F);g_curcase=-3;
        if(rc||(c==nullptr)!=(l.st==nullptr)){violate(l.f->name,"multi-load","state in a shared file: rc=%d %s",rc,l.st?"non-NULL state came back NULL":"NULL state");if(c)l.f->sfree(&c);continue;}
        if(c){std::vector<const double*>in;ins_of(*l.f,S,in);for(int i=30;i<60;i++){StepOut x=step1(*l.f,l.st,in.data(),i),y=step1(*l.f,c,in.data(),i);if(!same_step(*l.f,x,y)){violate(l.f->name,"multi-diverged","bar %d",i);break;}}l.f->sfree(&c);}
        stat_add("multi_file_states");}
      fclose(F);for(auto&l:v)if(l.st)l.f->sfree(&l.st);}
  }
}
/* ------------------------------------------------------------------ C09 */
struct Cookie{std::string data;size_t pos=0;long cap=-1;bool fail=false;long calls=0,hiccup=-1;bool part=false;   /* hiccup: the call that fails once, the device works again afterwards */
  bool trip(){return calls++==hiccup;}};
static ssize_t ck_write(void*c,const char*b,size_t n){Cookie*k=(Cookie*)c;if(k->trip()){errno=EIO;if(k->part&&n>1){k->data.append(b,n/2);k->calls+=1L<<40;return n/2;}return 0;}if(k->calls>(1L<<40)){k->calls-=1L<<40;return 0;}if(k->cap>=0&&(long)(k->data.size()+n)>k->cap){size_t room=k->cap-k->data.size();k->data.append(b,room);k->fail=true;return room?(ssize_t)room:0;}k->data.append(b,n);return n;}
static ssize_t ck_read(void*c,char*b,size_t n){Cookie*k=(Cookie*)c;if(k->trip()){errno=EIO;return -1;}size_t m=k->data.size()-k->pos;if(m>n)m=n;memcpy(b,k->data.data()+k->pos,m);k->pos+=m;if(m==0&&k->fail){errno=EIO;return -1;}return m;}
static FILE*ck_open(Cookie&c,const char*mode){cookie_io_functions_t io={ck_read,ck_write,nullptr,nullptr};FILE*f=fopencookie(&c,mode,io);setvbuf(f,nullptr,_IONBF,0);return f;}
PROPERTY(C09){
  each_case("C09",12,[](const Fn&f,Rng&R,long){
    double o[8];gen_opts(R,f,o,12);int lb=f.lookback(o);if(lb<0)return;if(lb>400)return;
    int n=R.p(0.2)?0:lb+R.in(0,20);Series S;gen_series(R,n+25,S);std::vector<const double*>in;ins_of(f,S,in);
    void*a=nullptr;if(f.sinit(&a,o)){violate(f.name,"init-rc","StateInit failed opts:%s",opts_str(f,o).c_str());if(a)f.sfree(&a);return;}
    for(int i=0;i<n;i++)step1(f,a,in.data(),i);
    std::string full;if(save_to(f,a,full)){violate(f.name,"save-rc","StateSave failed");f.sfree(&a);return;}
    seen(case_hash(f,o,0,n,S),true);
    size_t L=full.size();size_t stepn=L>1500?L/700:1;
    /* (a) every truncation point: I/O failure reported, nothing but StateFree left to do */
    for(size_t t=0;t<L;t+=(t<300||t+300>L)?1:stepn){
      void*c=nullptr;Cookie k;k.data=full.substr(0,t);k.fail=R.p(0.3);prog(f.name,g_curcase,"load truncated");FILE*F=ck_open(k,"rb");int rc=f.sload(&c,F);fclose(F);
      stat_add("truncations");if(rc!=TA_IO_FAILED){violate(f.name,"truncated-load","file cut to %zu of %zu bytes: StateLoad rc=%d instead of TA_IO_FAILED opts:%s",t,L,rc,opts_str(f,o).c_str());if(c)f.sfree(&c);break;}
      if(c){stat_add("partial_states_freed");prog(f.name,g_curcase,"free partial");int fr=f.sfree(&c);if(fr||c){violate(f.name,"partial-free","StateFree of a partially loaded state rc=%d",fr);break;}}
    }
    /* (b) every short write: I/O failure reported, the state itself unharmed */
    for(size_t t=0;t<L;t+=(t<300||t+300>L)?1:stepn){
      Cookie k;k.cap=(long)t;prog(f.name,g_curcase,"save to a full device");FILE*F=ck_open(k,"wb");int rc=f.ssave(a,F);fclose(F);stat_add("short_writes");
      if(rc!=TA_IO_FAILED){violate(f.name,"short-save","device full after %zu of %zu bytes: StateSave rc=%d instead of TA_IO_FAILED opts:%s",t,L,rc,opts_str(f,o).c_str());break;}
    }
    /* (b2) a single write or read error, the device working again afterwards: the data is incomplete all the same */
    {Cookie q;FILE*F=ck_open(q,"wb");f.ssave(a,F);fclose(F);long W=q.calls,st=W>400?W/200:1;
     for(long t=0;t<W;t+=t+30>W||t<100?1:st){Cookie k;k.hiccup=t;k.part=R.p(.3);prog(f.name,g_curcase,"save with one write error");FILE*G=ck_open(k,"wb");int rc=f.ssave(a,G);fclose(G);stat_add("single_write_errors");
       if(rc!=TA_IO_FAILED){violate(f.name,"write-error","write %ld of %ld failed once: StateSave rc=%d instead of TA_IO_FAILED opts:%s",t,W,rc,opts_str(f,o).c_str());break;}}
     Cookie r;r.data=full;F=ck_open(r,"rb");void*c=nullptr;f.sload(&c,F);fclose(F);if(c)f.sfree(&c);W=r.calls;st=W>400?W/200:1;
     for(long t=0;t<W;t+=t+30>W||t<100?1:st){Cookie k;k.data=full;k.hiccup=t;prog(f.name,g_curcase,"load with one read error");FILE*G=ck_open(k,"rb");c=nullptr;int rc=f.sload(&c,G);fclose(G);stat_add("single_read_errors");
       if(rc!=TA_IO_FAILED)violate(f.name,"read-error","read %ld of %ld failed once: StateLoad rc=%d instead of TA_IO_FAILED opts:%s",t,W,rc,opts_str(f,o).c_str());
       prog(f.name,g_curcase,"free partial");if(c)f.sfree(&c);if(rc!=TA_IO_FAILED)break;}}
    std::string again;int rc=save_to(f,a,again);if(rc||again!=full)violate(f.name,"failed-save-disturbs","after failed saves the state serialises differently rc=%d",rc);
    /* (c) loading over a live state is refused and leaves it alone */
    {void*b=nullptr;f.sinit(&b,o);int m=R.in(0,lb+5);for(int i=0;i<m;i++)step1(f,b,in.data(),i%(n+25));std::string before,after;save_to(f,b,before);void*b0=b;
     rc=load_from(f,&b,full,nullptr);stat_add("refused_overwrites");
     if(rc!=TA_BAD_PARAM||b!=b0)violate(f.name,"load-over-live","StateLoad into a live state rc=%d (expected TA_BAD_PARAM)%s",rc,b!=b0?" and replaced it":"");
     else{save_to(f,b,after);if(before!=after)violate(f.name,"load-over-live","refused StateLoad changed the live state");}
     if(b)f.sfree(&b);}
    for(int i=n;i<n+20;i++){ /* and the state keeps streaming like one that never saw a failure */
      static void*ref;static const Fn*rf;if(i==n){ref=nullptr;rf=&f;f.sinit(&ref,o);for(int j=0;j<n;j++)step1(f,ref,in.data(),j);}
      StepOut x=step1(f,a,in.data(),i),y=step1(*rf,ref,in.data(),i);bool bad=!same_step(f,x,y);if(bad)violate(f.name,"faults-disturb-stream","bar %d %s vs %s",i,step_str(f,x).c_str(),step_str(f,y).c_str());
      if(bad||i==n+19){f.sfree(&ref);break;}}
    f.sfree(&a);
    if(R.p(0.05))sample("%s: %zu truncation points and %zu short writes of a %zu-byte state all reported, opts:%s",f.name,L,L,L,opts_str(f,o).c_str());
  });
}
