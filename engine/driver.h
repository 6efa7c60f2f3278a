#pragma once
static void setupGlobals(State&s){
  for(auto&F:*M){ auto o=std::make_shared<MemObj>(); o->kind=OFUNC; o->size=1; o->b.assign(1,0); u64 a=s.mem.add(o)<<OBJSHIFT; gaddr[&F]=a; funcAt[a]=&F; }
  std::vector<std::pair<GlobalVariable*,u64>> gs;
  for(auto&g:M->globals()){ u64 sz=64; if(g.getValueType()->isSized()) sz=std::max<u64>(1,DL->getTypeAllocSize(g.getValueType())); if(g.isDeclaration()&&sz<64) sz=64; auto o=std::make_shared<MemObj>(); o->size=sz; o->kind=g.isConstant()&&!g.isDeclaration()?OCONST:OGLOBAL; o->b.assign(sz,0); o->name=strdup(g.getName().str().c_str()); u64 id=s.mem.add(o); gaddr[&g]=id<<OBJSHIFT; gs.push_back({&g,id}); }
  for(auto&[g,id]:gs) if(g->hasInitializer()) initMem(*s.mem.get(id),0,g->getInitializer()); }
static void resetForChild(){ ST=Stats(); SOL->st=SolverStats(); errRecs.clear(); samples.clear(); incompleteWhy.clear(); sampleSeen=0; kids.clear(); isChild=true; for(auto&p:finfo) p.second->hits=0; }
static void emit(double t0){
  for(auto&p:finfo) if(p.second->repo&&p.second->hits) coveredRepo.insert(demangle(p.second->name));
  std::string o="{"; auto num=[&](const char*k,double v){ char b[80]; snprintf(b,80,"\"%s\":%.15g,",k,v); o+=b; };
  num("paths",ST.paths);num("killed",ST.killed);num("instrs",ST.instrs);num("forks",ST.forks);num("checks",ST.checks);num("folded",ST.checksFolded);num("errors",ST.errors);num("repo_instrs",ST.repoInstrs);num("dom",ST.domDecided+ST.domForks);
  num("queries",SOL->st.queries);num("sat",SOL->st.sat);num("unsat",SOL->st.unsat);num("unknown",SOL->st.unknown);num("cache",SOL->st.cacheHits);num("heavy",SOL->st.heavy);num("solver_s",SOL->st.time);num("max_query_s",SOL->st.maxq);num("wall",now()-t0);num("vars",DB.vars.size());num("exprs",DB.count);
  struct rusage ru; getrusage(RUSAGE_SELF,&ru); num("maxrss_mb",ru.ru_maxrss/1024);
  o+="\"reach\":{"; bool f=true; for(auto&p:ST.reach){ if(!f) o+=","; f=false; o+="\""+jesc(p.first)+"\":"+std::to_string(p.second); } o+="},\"functions\":["; f=true; for(auto&n:coveredRepo){ if(!f) o+=","; f=false; o+="\""+jesc(n)+"\""; } 
  o+="],\"incomplete\":\""+jesc(incompleteWhy)+"\",\"errs\":["; f=true; for(auto&e:errRecs){ if(!f) o+=","; f=false; o+="{\"kind\":\""+jesc(e.kind)+"\",\"msg\":\""+jesc(e.msg)+"\",\"trace\":\""+jesc(e.trace)+"\",\"data\":"+e.inputs+"}"; }
  o+="],\"samples\":["; f=true; for(auto&e:samples){ if(!f) o+=","; f=false; o+=e; } o+="]}\n";
  if(outFile.empty()) fwrite(o.data(),1,o.size(),stdout),fflush(stdout); else { int fd=open(outFile.c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); size_t k=0; while(k<o.size()){ ssize_t w=write(fd,o.data()+k,o.size()-k); if(w<=0) break; k+=w; } close(fd);} }
static bool takeTok(){ if(tokFdR<0) return false; char c; return read(tokFdR,&c,1)==1; }
static void giveTok(){ if(tokFdW>=0){ char c='+'; if(write(tokFdW,&c,1)){} } }
static double T0;
static void maybeFork(){
  if(work.size()<2||tokFdR<0) return; if(!takeTok()) return; fflush(stdout); fflush(stderr);
  size_t half=work.size()/2; pid_t p=fork(); if(p<0){ giveTok(); return; }
  if(p==0){ resetForChild(); T0=now(); rngs^=(u64)getpid()*2654435761u; work.erase(work.begin()+half,work.end()); throw 42; }
  kids.push_back(p); work.erase(work.begin(),work.begin()+half); }
static void sample(State&s){ sampleSeen++; if(s.in.empty()) return; size_t cap=nsamples; if(samples.size()<cap||rng()%sampleSeen<cap){ useState(s); std::string j="{\"inputs\":"+recJson(s.in)+",\"obs\":"+recJson(s.obs)+"}"; if(samples.size()<cap) samples.push_back(j); else samples[rng()%cap]=j; } }
static void explore(){
  u64 cnt=0;
  while(!work.empty()){
    std::unique_ptr<State> sp=std::move(work.back()); work.pop_back(); State&s=*sp; useState(s);
    try{ while(true){ if(!step(s)){ ST.paths++; sample(s); break; } if((++cnt&0x3fff)==0){ if(now()>deadline) throw Incomplete{"time limit"}; if(work.size()>=2){ try{ maybeFork(); } catch(int){ goto next; } useState(s);} } } }
    catch(KillPath&k){ ST.killed++; }
    catch(PathError&e){ ST.paths++; recordError(s,e.kind,e.msg); }
    catch(Incomplete&e){ incompleteWhy=e.why+" | "+where(s); if(verbose) fprintf(stderr,"incomplete: %s\n",incompleteWhy.c_str()); if(now()>deadline) return; }
    catch(Unsupported&e){ incompleteWhy="unsupported: "+e.why+" | "+where(s); if(verbose) fprintf(stderr,"%s\n",incompleteWhy.c_str()); }
    if(errRecs.size()>=maxErrors) return;
    if(now()>deadline){ if(!work.empty()) incompleteWhy="time limit"; return; }
    if(work.size()>=2){ try{ maybeFork(); } catch(int){} }
    next:; } }
static std::string modFile,entry="harness"; static double timeLimit=600;
static void* realMain(void*){
  T0=now(); SMDiagnostic err; M=parseIRFile(modFile,err,LC); if(!M){ err.print("symx",llvm::errs()); exit(3);} DL=&M->getDataLayout();
  initBuiltins(); static Solver sol(DB); SOL=&sol; auto st=std::make_unique<State>(); State&s=*st; setupGlobals(s); useState(s);
  auto runF=[&](Function*F){ pushFrame(s,F,nullptr,0,-1,false); while(step(s)); };
  try{ if(auto*g=M->getGlobalVariable("llvm.global_ctors")) if(g->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())){ std::vector<std::pair<u64,Function*>> v; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*F=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),F}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v) runF(p.second); }
    if(!work.empty()) throw Unsupported{"symbolic static initialisation"};
    Function*E=M->getFunction(entry); if(!E||E->isDeclaration()) throw Unsupported{"no entry function "+entry}; pushFrame(s,E,nullptr,0,-1,false); s.instrs=0; s.heapLive=0; }
  catch(PathError&e){ incompleteWhy="static initialisation: "+e.kind+" "+e.msg+" | "+where(s); emit(T0); if(verbose) fprintf(stderr,"%s\n",incompleteWhy.c_str()); exit(0); }
  catch(Unsupported&e){ incompleteWhy="static initialisation: "+e.why+" | "+(s.fr.empty()?std::string(""):where(s)); emit(T0); if(verbose) fprintf(stderr,"%s\n",incompleteWhy.c_str()); exit(0); }
  deadline=now()+timeLimit; work.push_back(std::move(st));
  explore(); 
  for(pid_t k:kids){ int w; waitpid(k,&w,0); if(!WIFEXITED(w)||WEXITSTATUS(w)) incompleteWhy="worker process died"; }
  emit(T0); fflush(stdout); fflush(stderr); if(isChild) giveTok(); _exit(0); }
int main(int argc,char**argv){
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--entry") entry=nx(); else if(a=="--args"){ std::stringstream ss(nx()); std::string kv; while(std::getline(ss,kv,',')){ size_t p=kv.find('='); params[kv.substr(0,p)]=strtoull(kv.c_str()+p+1,0,0);} }
    else if(a=="--timeout") timeLimit=atof(nx().c_str()); else if(a=="--out") outFile=nx(); else if(a=="--tokens"){ tokFdR=atoi(nx().c_str()); tokFdW=atoi(nx().c_str()); } else if(a=="--max-instr") maxInstr=strtoull(nx().c_str(),0,0);
    else if(a=="--repo") repoPrefix=nx(); else if(a=="--overflow") checkOverflow=true; else if(a=="--samples") nsamples=atoi(nx().c_str()); else if(a=="--seed") seed=strtoull(nx().c_str(),0,0); else if(a=="-v") verbose=true; else if(a=="--max-errors") maxErrors=atoi(nx().c_str()); else modFile=a; }
  rngs^=seed*0x9E3779B97F4A7C15ull; rng(); rng();
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,(size_t)2<<30); pthread_t t; pthread_create(&t,&at,realMain,0); pthread_join(t,0); return 0; }
