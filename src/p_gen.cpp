/* C24: trace recorder / comparer for two builds of the library (the tree as it is, and the tree after the code generator ran), and the
   metadata-driven check of argument handling used on a tree regenerated from edited tables */
#include "absu.h"
uint64_t case_hash(const Fn&f,const double*o,int s,int e,const Series&S);
static FILE*TF;static bool CMP;static std::vector<double>REC;static std::string WHAT;
static bool STOP;
static void put(double x){REC.push_back(x);}
static void puts_(const char*s){if(!s){put(-1);return;}uint64_t h=hstr(s);put((double)(h>>32));put((double)(h&0xffffffffu));}
/* ends a record: writes it, or compares it with the one read */
static void rec(const Fn&f,const char*what,const std::string&opts){
  if(STOP){REC.clear();return;}
  stat_add("records");stat_add("recorded_values",REC.size());uint32_t n=REC.size();
  if(!CMP){uint32_t hd[2]={(uint32_t)hstr(what),n};fwrite(hd,4,2,TF);fwrite(REC.data(),8,n,TF);REC.clear();return;}
  uint32_t hd[2]={0,0};if(fread(hd,4,2,TF)!=2){fprintf(stderr,"trace ends early\n");exit(3);}
  std::vector<double>E(hd[1]);if(hd[1]&&fread(E.data(),8,hd[1],TF)!=hd[1]){fprintf(stderr,"trace ends early\n");exit(3);}
  if(hd[0]!=(uint32_t)hstr(what)||hd[1]!=n){violate(f.name,"regenerated-behaviour","%s: the regenerated library gives %u values, the tree's own %u opts:%s",what,n,hd[1],opts.c_str());REC.clear();STOP=true;return;}
  for(uint32_t i=0;i<n;i++){double a=E[i],b=REC[i];if(same_bits(a,b)||a==b||(isnan(a)&&isnan(b)))continue;
    if(close(a,b,1e-9,1e-12)){stat_add("rounded_values");continue;}
    violate(f.name,"regenerated-behaviour","%s: value %u is %.17g in the regenerated library, %.17g in the tree's own opts:%s",what,i,b,a,opts.c_str());if(!strcmp(what,"lookback"))STOP=true;break;}
  REC.clear();
}
static void putOut(const Fn&f,const Out&r){put(r.rc);put(r.b);put(r.n);if(r.rc==0)for(int k=0;k<f.nOut;k++)for(int i=0;i<r.n;i++)put(r.at(f,k,i));}
static void one(const Fn&f,Rng&R,long cs){
  if(STOP)return;
  Globals G(R,.2,.1,.15);double o[8];gen_opts(R,f,o,20);
  if(R.p(.15)&&f.nOpt){int j=R.in(0,f.nOpt-1);const OptD&d=f.opt[j];bool hi=R.p(.5);o[j]=d.type==0?(R.p(.2)?(hi?1e300:-1e300):hi?nextafter(d.max,INFINITY):nextafter(d.min,-INFINITY)):hi?d.max+1:d.min-1;}
  if(R.p(.1))for(int j=0;j<f.nOpt;j++)o[j]=f.opt[j].type==0?-4e37:(double)INT_MIN;
  std::string os=opts_str(f,o)+G.str();
  int lb=f.lookback(o);put(lb);rec(f,"lookback",os);if(STOP||lb>600)return;int n=(lb<0?8:lb)+R.in(1,24);Series S;gen_series(R,n,S,GRID_DYADIC);std::vector<const double*>in;ins_of(f,S,in);
  seen(case_hash(f,o,0,n-1,S),lb>=0&&lb<n);
  
  int s=R.in(0,n-1),e=R.in(s,n-1);if(R.p(.5)){s=0;e=n-1;}
  prog(f.name,cs,"batch");putOut(f,run_batch(f,s,e,in.data(),o));rec(f,"batch",os);
  {std::vector<std::vector<float>>fv(f.nIn);std::vector<const float*>fp;for(int j=0;j<f.nIn;j++){fv[j].assign(in[j],in[j]+n);fp.push_back(fv[j].data());}
   prog(f.name,cs,"float");putOut(f,run_float(f,s,e,fp.data(),o));rec(f,"single precision",os);}
  /* refusals: ranges and missing arrays */
  prog(f.name,cs,"refusals");
  {std::vector<double>d(n*3);std::vector<int>v(n*3);void*out[3];auto fill=[&]{for(int k=0;k<f.nOut;k++)out[k]=f.outInt[k]?(void*)(v.data()+k*n):(void*)(d.data()+k*n);};fill();int b=0,nb=0;
   put(f.batch(-1,n-1,in.data(),o,&b,&nb,out));put(f.batch(0,-1,in.data(),o,&b,&nb,out));if(n>1)put(f.batch(n-1,n-2,in.data(),o,&b,&nb,out));
   for(int j=0;j<f.nIn;j++){auto x=in;x[j]=nullptr;put(f.batch(0,0,x.data(),o,&b,&nb,out));}
   for(int k=0;k<f.nOut;k++){fill();out[k]=nullptr;put(f.batch(0,0,in.data(),o,&b,&nb,out));}rec(f,"refusals",os);}
  prog(f.name,cs,"abstract");
  {AbsHold A(f);put(A.rc);if(!A.rc){std::vector<std::vector<double>>d(3,std::vector<double>(n,0.));std::vector<std::vector<int>>v(3,std::vector<int>(n,0));A.setIns(in.data());A.setOpts(o);for(int k=0;k<f.nOut;k++)A.setOut(k,f.outInt[k]?(void*)v[k].data():(void*)d[k].data());
    int l=-9,b=-9,nb=-9;put(A.rc);put(TA_GetLookback(A.p,&l));put(l);int rc=TA_CallFunc(A.p,s,e,&b,&nb);put(rc);put(b);put(nb);if(!rc)for(int k=0;k<f.nOut;k++)for(int i=0;i<nb;i++)put(f.outInt[k]?v[k][i]:d[k][i]);}rec(f,"abstract call",os);}
  prog(f.name,cs,"stream");
  {void*st=nullptr;int rc=f.sinit(&st,o);put(rc);if(!rc&&st){double x[8];double dv[3][1];int iv[3][1];void*out[3];int half=R.in(0,n-1);
     for(int i=0;i<n;i++){
       if(i==half){char*bp=nullptr;size_t bl=0;FILE*m=open_memstream(&bp,&bl);put(f.ssave(st,m));fclose(m);put((double)bl);f.sfree(&st);st=nullptr;FILE*q=fmemopen(bp,bl?bl:1,"rb");int r=f.sload(&st,q);put(r);put((double)ftell(q));fclose(q);free(bp);if(r||!st)break;}
       for(int j=0;j<f.nIn;j++)x[j]=in[j][i];for(int k=0;k<f.nOut;k++){dv[k][0]=0;iv[k][0]=0;out[k]=f.outInt[k]?(void*)iv[k]:(void*)dv[k];}
       int r=f.sstep(st,x,out);put(r);if(!r)for(int k=0;k<f.nOut;k++)put(f.outInt[k]?iv[k][0]:dv[k][0]);}
     put(f.sfree(&st));put(st==nullptr);}
   else if(st)f.sfree(&st);
   st=nullptr;rc=f.sinit(&st,o);if(!rc&&st){std::vector<std::vector<double>>d(3,std::vector<double>(n,0.));std::vector<std::vector<int>>v(3,std::vector<int>(n,0));void*out[3];for(int k=0;k<f.nOut;k++)out[k]=f.outInt[k]?(void*)v[k].data():(void*)d[k].data();
     int b=-9,nb=-9;put(f.sbatch(st,0,n-1,in.data(),&b,&nb,out));put(b);put(nb);for(int k=0;k<f.nOut;k++)for(int i=0;i<n;i++)put(f.outInt[k]?v[k][i]:d[k][i]);f.sfree(&st);}
   rec(f,"stream",os);}
  if(cs==0){const TA_FuncHandle*h=nullptr;const TA_FuncInfo*fi=nullptr;put(TA_GetFuncHandle(f.name,&h));put(TA_GetFuncInfo(h,&fi));puts_(fi->name);puts_(fi->group);puts_(fi->hint);puts_(fi->camelCaseName);put(fi->flags);put(fi->nbInput);put(fi->nbOptInput);put(fi->nbOutput);
    for(unsigned j=0;j<fi->nbInput;j++){const TA_InputParameterInfo*x=nullptr;put(TA_GetInputParameterInfo(h,j,&x));put(x->type);puts_(x->paramName);put(x->flags);}
    for(unsigned j=0;j<fi->nbOptInput;j++){const TA_OptInputParameterInfo*x=nullptr;put(TA_GetOptInputParameterInfo(h,j,&x));put(x->type);puts_(x->paramName);put(x->flags);puts_(x->displayName);put(x->defaultValue);puts_(x->hint);}
    for(unsigned j=0;j<fi->nbOutput;j++){const TA_OutputParameterInfo*x=nullptr;put(TA_GetOutputParameterInfo(h,j,&x));put(x->type);puts_(x->paramName);put(x->flags);}rec(f,"metadata","");
    TA_StringTable*t=nullptr;put(TA_FuncTableAlloc(fi->group,&t));if(t){for(unsigned i=0;i<t->size;i++)puts_(t->string[i]);TA_FuncTableFree(t);}TA_StringTable*g=nullptr;put(TA_GroupTableAlloc(&g));if(g){for(unsigned i=0;i<g->size;i++)puts_(g->string[i]);TA_GroupTableFree(g);}rec(f,"tables","");
    for(int c=0;c<300;c++){TA_RetCodeInfo q;TA_SetRetCodeInfo((TA_RetCode)c,&q);puts_(q.enumStr);puts_(q.infoStr);}rec(f,"return codes","");
    if(is(f,"ADD")){const char*x=TA_FunctionDescriptionXML();std::string y(x);size_t a=y.find("version=\"",y.find("<FinancialFunctionGroups")),b=a==std::string::npos?a:y.find('"',a+9);if(b!=std::string::npos)y.erase(a,b-a);puts_(y.c_str());put((double)y.size());rec(f,"XML description","");}}
  if(R.p(.002))sample("%s: batch %d..%d, single precision, refusals, abstract call, stream with a reload, block feeding recorded from both builds opts:%s",f.name,s,e,os.c_str());
}
/* argument handling follows the run-time metadata, whatever that is */
/* the test of functions added to the tables, made from their definitions and linked in by c24gen.py */
extern "C" int c24_extra(void)__attribute__((weak));
extern "C" void c24_extra_result(const char*fn,const char*what,double got,double want){stat_add("added_function_checks");if(got==want||(isnan(got)&&isnan(want)))return;violate(fn,"added-function","%s: %.17g, expected %.17g",what,got,want);}
static int g_unst;
static void meta(const Fn&f,Rng&R){
  const TA_FuncHandle*h=nullptr;const TA_FuncInfo*fi=nullptr;if(TA_GetFuncHandle(f.name,&h)||TA_GetFuncInfo(h,&fi)){violate(f.name,"handle","no handle");return;}
  if((int)fi->nbOptInput!=f.nOpt){violate(f.name,"edited-tables","nbOptInput %u",fi->nbOptInput);return;}
  double lo[8],hi[8],def[8];int ty[8];
  if(is(f,"ADD")&&c24_extra){static bool once;if(!once){once=true;prog(f.name,g_curcase,"added functions");stat_add("added_functions",c24_extra());}}
  if(is(f,"ADD")){g_unst=0;TA_ForEachFunc([](const TA_FuncInfo*x,void*){if(x->flags&TA_FUNC_FLG_UNST_PER)g_unst++;},nullptr);stat_add("unstable_functions",g_unst);
    if(g_unst!=(int)TA_FUNC_UNST_ALL)violate(f.name,"edited-tables","%d functions are flagged as having an unstable period, ta_defs.h lists %d",g_unst,(int)TA_FUNC_UNST_ALL);}
  {TA_StringTable*g=nullptr;int hits=0,own=0;if(TA_GroupTableAlloc(&g))violate(f.name,"edited-tables","no group table");else{for(unsigned i=0;i<g->size;i++){TA_StringTable*t=nullptr;if(TA_FuncTableAlloc(g->string[i],&t)==0){for(unsigned j=0;j<t->size;j++)if(!strcmp(t->string[j],f.name)){hits++;own+=!strcmp(g->string[i],fi->group);}TA_FuncTableFree(t);}}TA_GroupTableFree(g);}
    if(hits!=1||own!=1)violate(f.name,"edited-tables","listed in %d groups, %d of them its own (%s)",hits,own,fi->group);stat_add("group_lookups");}
  for(int j=0;j<f.nOpt;j++){const TA_OptInputParameterInfo*x=nullptr;TA_GetOptInputParameterInfo(h,j,&x);def[j]=x->defaultValue;ty[j]=x->type==TA_OptInput_RealRange?0:x->type==TA_OptInput_IntegerRange?1:2;
    if(ty[j]==0){lo[j]=((const TA_RealRange*)x->dataSet)->min;hi[j]=((const TA_RealRange*)x->dataSet)->max;}else if(ty[j]==1){lo[j]=((const TA_IntegerRange*)x->dataSet)->min;hi[j]=((const TA_IntegerRange*)x->dataSet)->max;}else{lo[j]=0;hi[j]=((const TA_IntegerList*)x->dataSet)->nbElement-1;}
    if(f.opt[j].min!=lo[j]||f.opt[j].max!=hi[j])stat_add("edited_ranges");if(f.opt[j].def!=def[j])stat_add("edited_defaults");}
  int n=40;Series S;gen_series(R,n,S,GRID_DYADIC);std::vector<const double*>in;ins_of(f,S,in);std::vector<std::vector<float>>fv(f.nIn);std::vector<const float*>fp;for(int j=0;j<f.nIn;j++){fv[j].assign(in[j],in[j]+n);fp.push_back(fv[j].data());}
  seen(mix64(R.u()),f.nOpt>0);
  auto refused=[&](const double*o,const char*why){int l=f.lookback(o);std::vector<double>d(3*n);std::vector<int>v(3*n);void*out[3];for(int k=0;k<f.nOut;k++)out[k]=f.outInt[k]?(void*)(v.data()+k*n):(void*)(d.data()+k*n);int b=0,nb=0;void*st=nullptr;
    int r1=f.batch(0,n-1,in.data(),o,&b,&nb,out),r2=f.batchf(0,n-1,fp.data(),o,&b,&nb,out),r3=f.sinit(&st,o);if(st)f.sfree(&st);stat_add("metadata_refusals");
    static const char*hand[]={"EMA","WLMA","MACDFIX","APO","PPO"};for(const char*x:hand)if(is(f,x))r3=TA_BAD_PARAM; /* these StateInit check their arguments outside the generated sections */
    if(l!=-1||r1!=TA_BAD_PARAM||r2!=TA_BAD_PARAM||r3!=TA_BAD_PARAM)violate(f.name,"edited-tables","%s outside the range of the tables: lookback %d, batch rc %d, float rc %d, StateInit rc %d opts:%s",why,l,r1,r2,r3,opts_str(f,o).c_str());};
  for(int j=0;j<f.nOpt;j++){double o[8];
    for(int side=0;side<2;side++){memcpy(o,def,sizeof o);o[j]=side?hi[j]:lo[j];if(is(f,"MAVP")&&j<2)o[0]=o[1]=o[j];int l=f.lookback(o);stat_add("metadata_limits");if(l<0)violate(f.name,"edited-tables","limit %s=%g of the tables is refused by the lookback",f.opt[j].name,o[j]);
      memcpy(o,def,sizeof o);o[j]=ty[j]==0?(side?nextafter(hi[j],INFINITY):nextafter(lo[j],-INFINITY)):side?hi[j]+1:lo[j]-1;refused(o,f.opt[j].name);}
    memcpy(o,def,sizeof o);o[j]=f.opt[j].type==0?-4e37:(double)INT_MIN;int a=f.lookback(o),b=f.lookback(def);stat_add("metadata_defaults");Out p=run_batch(f,0,n-1,in.data(),o),q=run_batch(f,0,n-1,in.data(),def);
    if(q.rc==0&&(q.n<0||q.n>n||q.b<0||q.b+q.n>n))violate(f.name,"edited-tables","batch 0..%d reports outBegIdx %d, outNBElement %d",n-1,q.b,q.n);
    bool ok=a==b&&p.rc==q.rc&&p.b==q.b&&p.n==q.n;for(int k=0;ok&&k<f.nOut;k++)for(int i=0;i<p.n;i++)if(!same_bits(p.at(f,k,i),q.at(f,k,i))&&!(isnan(p.at(f,k,i))&&isnan(q.at(f,k,i)))){ok=false;break;}
    if(!ok)violate(f.name,"edited-tables","the default sentinel for %s does not act like the listed default %g (lookback %d / %d, batch rc %d / %d)",f.opt[j].name,def[j],a,b,p.rc,q.rc);}
  void*st=nullptr;if(f.sinit(&st,def)==0&&st){double x[8];double dv[3];int iv[3];void*out[3];for(int k=0;k<f.nOut;k++)out[k]=f.outInt[k]?(void*)(iv+k):(void*)(dv+k);stat_add("metadata_streams");
    for(int i=0;i<3;i++){for(int j=0;j<f.nIn;j++)x[j]=in[j][i];int r=f.sstep(st,x,out);if(r!=TA_SUCCESS&&r!=TA_NEED_MORE_DATA)violate(f.name,"edited-tables","stream step rc %d",r);}
    if(f.sfree(&st)||st)violate(f.name,"edited-tables","StateFree fails or leaves the handle set");}
  else stat_add("metadata_streams_refused"); /* functions that hand fixed parameters to others (SAR, TRIX) may not work under other tables */
}
PROPERTY(C24){
  if(OPT.sub=="meta"){each_case("C24",20,[](const Fn&f,Rng&R,long){meta(f,R);});return;}
  CMP=OPT.sub.compare(0,4,"cmp:")==0;std::string path=OPT.sub.substr(4);TF=fopen(path.c_str(),CMP?"rb":"wb");if(!TF){fprintf(stderr,"cannot open %s\n",path.c_str());exit(3);}
  each_case("C24",20,[](const Fn&f,Rng&R,long c){one(f,R,c);});
  if(CMP&&!STOP&&fgetc(TF)!=EOF){fprintf(stderr,"trace longer than the run\n");exit(3);}
  fclose(TF);
}
