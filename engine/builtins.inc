// Intrinsics: harness primitives, memory, LLVM intrinsics, the OpenMP runtime and the C++ runtime.
static vector<std::pair<string,int>> bprefix;
static void reg(const char* n,BFn f) { bname[n]=(int)bfns.size(); bfns.push_back(std::move(f)); }
static void regp(const char* n,BFn f) { bprefix.push_back({n,(int)bfns.size()}); bfns.push_back(std::move(f)); }
static int builtinFor(Function* F) {
	string n=F->getName().str(); auto it=bname.find(n); if(it!=bname.end()) return it->second;
	if(!F->isDeclaration()) return -1;
	size_t best=0; int r=-1; for(auto&p:bprefix) if(n.compare(0,p.first.size(),p.first)==0&&p.first.size()>best) { best=p.first.size(); r=p.second; }
	return r;
}
static Val cv(uint64_t c) { return Val{c,nullptr}; }
static const Expr* symInt(Machine& m,const string& key,int lo,int hi) {
	string k=key+"@"+std::to_string(lo)+":"+std::to_string(hi); auto it=ivarTab.find(k); if(it!=ivarTab.end()) return it->second;
	const Expr* e=eVar(k,32,lo,hi); ivarTab[k]=e; return e;
}
static uint64_t allocMem(Machine& m,Val szv,uint64_t align,bool zero,const char* fn) {
	uint64_t sz=m.concretize(szv,64); if(sz>(1ull<<26)) m.violate("memory","allocation with a negative or enormous size");
	return m.newObj(sz,K_HEAP,align,zero,fn);
}
static int newTeam(Machine& m,Thread& t,DInst& d,int T,Function* f,vector<Val> args) {
	int parent=m.cur; m.finishCall(t,d,cv(0)); m.th[parent].st=T_JOIN; m.regionSerial++; m.acc.clear();
	int k=m.teams.size(); m.teams.push_back(Team{T,parent}); 
	for(int i=0;i<T;i++) { Thread n; n.id=m.th.size(); n.team=k; n.tid=i; n.logical=n.baselog=m.nextLogical++; m.th.push_back(n); int id=m.th.size()-1; m.teams[k].members.push_back(id);
		m.cur=id; uint64_t g=m.newObj(4,K_STACK,16,true),b=m.newObj(4,K_STACK,16,true); memcpy(&m.objs[g>>32].b[0],&i,4);
		vector<Val> a{cv(g),cv(b)}; a.insert(a.end(),args.begin(),args.end()); m.pushFrame(m.th[id],f,a,nullptr); }
	m.cur=m.teams[k].members[0];
	return k;
}
static void waitBarrier(Machine& m,DInst& d) { int me=m.cur; m.finishCall(m.th[me],d,cv(0)); Team& tm=m.teams[m.th[me].team]; m.th[me].logical=m.th[me].baselog=m.nextLogical++; if(tm.size<=1) { m.acc.clear(); return; } m.th[me].st=T_BARRIER; m.schedule(); }
static bool isRuntimeBarrier(Machine&m) { return m.teams[m.th[m.cur].team].size>1; }
static int64_t ldi(Machine& m,uint64_t a,unsigned n) { Val v=m.load(a,n,false); return sextw(m.concretize(v,n*8),n*8); }
static void barrierIfTeam(Machine& m,DInst& d) { waitBarrier(m,d); }
static BFn staticInit(unsigned n) { return [n](Machine& m,Thread& t,DInst& d,vector<Val>& a)->Val {
	int sched=(int)m.concretize(a[2],32); uint64_t pl=a[3].c,plo=a[4].c,pup=a[5].c,pst=a[6].c; int64_t inc=sextw(m.concretize(a[7],n*8),n*8), ch=sextw(m.concretize(a[8],n*8),n*8); if(ch<1) ch=1;
	int64_t lo=ldi(m,plo,n),up=ldi(m,pup,n); if(inc!=1) throw EngineError("static loop increment");
	Team& tm=m.teams[t.team]; int64_t T=std::max(1,tm.size),tid=t.tid, cnt=up-lo+1; if(cnt<0) cnt=0; int64_t nlo,nup,st; bool last=false;
	if(sched==34) { int64_t q=cnt/T,r=cnt%T; nlo=lo+tid*q+std::min(tid,r); nup=nlo+q+(tid<r?1:0)-1; st=cnt; if(st<1) st=1; last=nup==up&&cnt>0; }
	else if(sched==33) { nlo=lo+tid*ch; nup=nlo+ch-1; st=ch*T; last=cnt>0&&((cnt-1)/ch)%T==tid; }
	else throw EngineError("static schedule kind "+std::to_string(sched));
	if(T==1&&sched==34) { nlo=lo; nup=up; last=true; }
	auto sv=[&](uint64_t p,int64_t v,unsigned w) { m.store(p,w,cv((uint64_t)v&maskw(w*8))); };
	sv(plo,nlo,n); sv(pup,nup,n); sv(pst,st,n); if(pl) sv(pl,last,4); return cv(0); }; }
static BFn dispInit(unsigned n) { return [n](Machine& m,Thread& t,DInst& d,vector<Val>& a)->Val {
	int64_t lo=sextw(m.concretize(a[3],n*8),n*8),up=sextw(m.concretize(a[4],n*8),n*8),st=sextw(m.concretize(a[5],n*8),n*8),ch=sextw(m.concretize(a[6],n*8),n*8);
	if(st!=1) throw EngineError("dynamic loop stride"); if(ch<1) { if(!(m.concretize(a[2],32)&0)) ch=1; }
	Team& tm=m.teams[t.team]; int k=t.loopno++; if((int)tm.loops.size()<=k) tm.loops.resize(k+1); LoopRec& L=tm.loops[k]; if(!L.set) { L.set=true; L.next=lo; L.ub=up; L.st=1; L.chunk=ch; L.k=0; }
	else if(L.next-L.k*0!=lo&&false) throw EngineError("mismatched loop"); 
	t.curLoop.push_back({k,-1}); return cv(0); }; }
static BFn dispNext(unsigned n) { return [n](Machine& m,Thread& t,DInst& d,vector<Val>& a)->Val {
	Team& tm=m.teams[t.team]; if(t.curLoop.empty()) throw EngineError("dispatch without loop"); auto& cl=t.curLoop.back(); LoopRec& L=tm.loops[cl.first]; int64_t T=std::max(1,tm.size); int64_t k;
	if(m.asyncOn) { k=L.k++; } else { static const bool rev=cfg.count("rev")&&cfg["rev"]; k=cl.second<0?(rev?T-1-t.tid:t.tid):cl.second+T; cl.second=(int)k; } // rev: chunk k goes to thread T-1-k mod T, so that the first rows are not the first to be updated
	int64_t base=L.next; int64_t lo=base+k*L.chunk; if(lo>L.ub) { t.curLoop.pop_back(); t.logical=t.baselog; return cv(0); }
	int64_t up=std::min(L.ub,lo+L.chunk-1); if(T>1) t.logical=m.nextLogical++;
	auto sv=[&](uint64_t p,int64_t v,unsigned w) { m.store(p,w,cv((uint64_t)v&maskw(w*8))); };
	if(a[2].c) sv(a[2].c,up==L.ub,4); sv(a[3].c,lo,n); sv(a[4].c,up,n); if(a[5].c) sv(a[5].c,1,n); return cv(1); }; }
static void throwStd(Machine& m,Thread& t,const char* ti) {
	uint64_t tia=0; for(auto& g:gaddr) if(g.first->getName()==ti) tia=g.second;
	if(!tia) { // the type is not mentioned in the module: only catch(...) can catch it
		m.violate("exception",string("uncaught exception ")+demangle(string(ti))); }
	uint64_t o=m.newObj(16,K_HEAP,16,true,"exc"); m.excTIs[o]=tia; m.unwinding=true; m.throwExc(t,o,tia);
}
// cfg memonly: only memory, initialisation, leak, termination and internal-assertion faults count
static bool memOnly() { static int v=-1; if(v<0) { auto it=cfg.find("memonly"); v=it!=cfg.end()&&it->second; } return v; }
static void registerBuiltins() {
	typedef Machine& Mr; typedef Thread& Tr; typedef DInst& Dr; typedef vector<Val>& Ar;
	BFn nop=[](Mr,Tr,Dr,Ar a)->Val { return cv(0); }; BFn id0=[](Mr,Tr,Dr,Ar a)->Val { return a.empty()?cv(0):a[0]; };
	BFn fresh0=[](Mr m,Tr,Dr,Ar a)->Val { return a.empty()?cv(0):a[0]; };
	// ------------------------------------------------ harness primitives
	reg("vp_int",[](Mr m,Tr,Dr,Ar a)->Val { string n=m.cstr(a[0].c); int lo=(int)m.concretize(a[1],32),hi=(int)m.concretize(a[2],32); int c=m.symcnt[n]++; string key=n+(c?"#"+std::to_string(c):""); if(lo==hi) { m.syms.push_back({key,nullptr,2,lo,0}); return cv((uint32_t)lo); } const Expr* e=symInt(m,key,lo,hi); m.syms.push_back({key,e,0,0,0}); return Val{0,e}; });
	reg("vp_real",[](Mr m,Tr,Dr,Ar a)->Val { string n=m.cstr(a[0].c); int c=m.symcnt[n]++; string key=n+(c?"#"+std::to_string(c):""); auto it=rvarTab.find(key); int at; if(it==rvarTab.end()) { at=newVar(key); rvarTab[key]=at; } else at=it->second; m.syms.push_back({key,nullptr,1,0,at}); return Val{0,eReal(patom(at))}; });
	reg("vp_pick",[](Mr m,Tr,Dr,Ar a)->Val { string n=m.cstr(a[0].c); int lo=(int)m.concretize(a[1],32),hi=(int)m.concretize(a[2],32); vector<uint64_t> o; for(int i=lo;i<=hi;i++) o.push_back((uint32_t)i); uint32_t v=lo==hi?(uint32_t)lo:(uint32_t)m.decide(o); m.syms.push_back({n,nullptr,2,(int32_t)v,0}); return cv(v); });
	reg("vp_assume",[](Mr m,Tr,Dr,Ar a)->Val { if(!a[0].e) { if(!(uint32_t)a[0].c) throw PathEnd{"assume"}; return cv(0); } if(m.undef(a[0])) m.violate("uninit","assumption on an uninitialised value");
		const Expr* c=eNot(eBin(E_EQ,a[0].e,eConst(a[0].e->w,0))); if(c->k==E_CONST) { if(!c->cval) throw PathEnd{"assume"}; return cv(0); } if(!m.pcset.count(c)) { if(!m.replaying()&&m.feasible(c)==UNSAT) throw PathEnd{"assume"}; m.addPC(c); } return cv(0); });
	reg("vp_assume_nz",[](Mr m,Tr,Dr,Ar a)->Val { const Poly* p=m.toPoly(a[0]); const Expr* c=eNot(eRcmp(0,p)); if(c->k==E_CONST) { if(!c->cval) throw PathEnd{"assume"}; return cv(0); } if(!m.pcset.count(c)) { if(!m.replaying()&&m.feasible(c)==UNSAT) throw PathEnd{"assume"}; m.addPC(c); } return cv(0); });
	reg("vp_assert",[](Mr m,Tr,Dr,Ar a)->Val { string msg=m.cstr(a[1].c); if(memOnly()&&msg.find("leak")==string::npos&&msg!="bad configuration") { if(m.undef(a[0])) m.violate("uninit","an uninitialised value is a result: "+msg); return cv(0); } if(!a[0].e) { m.assertCond(eConst(1,(uint32_t)a[0].c!=0),msg); return cv(0); } if(m.undef(a[0])) m.violate("uninit","assertion on an uninitialised value: "+msg); m.assertCond(eNot(eBin(E_EQ,a[0].e,eConst(a[0].e->w,0))),msg); return cv(0); });
	reg("vp_assert_eq",[](Mr m,Tr,Dr,Ar a)->Val { string msg=m.cstr(a[2].c); if(m.undef(a[0])||m.undef(a[1])) m.violate("uninit","result is uninitialised: "+msg); if(memOnly()) return cv(0); m.assertEq(m.toPoly(a[0]),m.toPoly(a[1]),msg); return cv(0); });
	reg("vp_cfg",[](Mr m,Tr,Dr,Ar a)->Val { auto it=cfg.find(m.cstr(a[0].c)); return it==cfg.end()?a[1]:cv((uint32_t)it->second); });
	reg("vp_cover",[](Mr m,Tr,Dr,Ar a)->Val { m.covered.insert(m.cstr(a[0].c)); return cv(0); });
	reg("vp_out",[](Mr m,Tr,Dr,Ar a)->Val { if(m.undef(a[0])) m.violate("uninit","an output is uninitialised"); m.outs.push_back({"r",a[0]}); return cv(0); });
	reg("vp_outi",[](Mr m,Tr,Dr,Ar a)->Val { if(m.undef(a[0])) m.violate("uninit","an output is uninitialised"); m.outs.push_back({"i",a[0]}); return cv(0); });
	reg("vp_strict_div",[](Mr m,Tr,Dr,Ar a)->Val { m.strictDiv=a[0].c&1; return cv(0); });
	reg("vp_async",[](Mr m,Tr,Dr,Ar a)->Val { m.asyncOn=(uint32_t)a[0].c; m.asyncBudget=(int)a[1].c; m.asyncUsed=0; m.raceOK=m.asyncOn; return cv(0); });
	reg("vp_race_ok",[](Mr m,Tr,Dr,Ar a)->Val { m.raceOK=(uint32_t)a[0].c; return cv(0); });
	reg("vp_fixed",[](Mr m,Tr,Dr,Ar a)->Val { m.fixedMode=(int)(uint32_t)a[0].c; m.asyncOn=m.fixedMode>0; if(m.fixedMode) m.raceOK=true; for(auto& L:m.teams) { (void)L; } m.th[m.cur].loopno=0; m.teams[m.th[m.cur].team].loops.clear(); return cv(0); });
	reg("vp_fixed_checks",[](Mr m,Tr,Dr,Ar a)->Val { return cv((uint32_t)m.fixedChecks); });
	reg("vp_threads",[](Mr m,Tr,Dr,Ar a)->Val { m.nthreads=std::max(1,(int)m.concretize(a[0],32)); return cv(0); });
	// live blocks allocated since the entry that no global variable leads to (a block kept in a static container is not lost)
	reg("vp_heap_live",[](Mr m,Tr,Dr,Ar a)->Val { vector<char> seen(m.objs.size(),0); vector<uint32_t> todo; for(uint32_t i=0;i<m.objs.size();i++) if(m.objs[i].kind==K_GLOBAL&&!m.objs[i].ro&&m.objs[i].alive) todo.push_back(i);
		while(!todo.empty()) { uint32_t i=todo.back(); todo.pop_back(); Obj& o=m.objs[i]; for(size_t k=0;k+8<=o.b.size();k+=8) { bool c=true; for(int q=0;q<8;q++) c=c&&o.s[k+q]==1; if(!c) continue; uint64_t v; memcpy(&v,&o.b[k],8); uint32_t t=v>>32; if(t==0||t>=m.objs.size()||seen[t]||m.objs[t].kind!=K_HEAP||!m.objs[t].alive||v-m.objs[t].base>m.objs[t].size) continue; seen[t]=1; todo.push_back(t); } }
		uint32_t n=0; for(uint32_t i=m.heapBase;i<m.objs.size();i++) { Obj& o=m.objs[i]; if(o.alive&&o.kind==K_HEAP&&!seen[i]&&string(o.allocfn)!="exc") n++; } return cv(n); });
	reg("_ZSt11_Hash_bytesPKvmm",[](Mr m,Tr,Dr,Ar a)->Val { return cv(m.concretize(a[1],64)); });
	reg("vp_native",[](Mr m,Tr,Dr,Ar a)->Val { return cv(0); });
	reg("vp_concrete",[](Mr m,Tr,Dr,Ar a)->Val { return cv(m.concretize(a[0],32)); });
	reg("vp_freeze",[](Mr m,Tr,Dr,Ar a)->Val { uint64_t id=a[0].c>>32; if(id&&id<m.objs.size()) m.objs[id].ro=(uint32_t)a[1].c; return cv(0); });
	reg("vp_eq_bits",[](Mr m,Tr,Dr,Ar a)->Val { uint64_t n=m.concretize(a[2],64); for(uint64_t i=0;i<n;i++) { Val x=m.load(a[0].c+8*i,8,true),y=m.load(a[1].c+8*i,8,true); if(x.e!=y.e||x.c!=y.c) return cv(0); } return cv(1); });
	// line-oriented text input, filled by the harness
	reg("vp_line",[](Mr m,Tr,Dr,Ar a)->Val { m.lines.push_back({}); return cv(0); });
	reg("vp_clear_file",[](Mr m,Tr,Dr,Ar a)->Val { m.lines.clear(); return cv(0); });
	reg("vp_tok_s",[](Mr m,Tr,Dr,Ar a)->Val { m.lines.back().push_back({0,m.cstr(a[0].c),cv(0)}); return cv(0); });
	reg("vp_tok_i",[](Mr m,Tr,Dr,Ar a)->Val { m.lines.back().push_back({1,"",a[0]}); return cv(0); });
	reg("vp_tok_r",[](Mr m,Tr,Dr,Ar a)->Val { m.lines.back().push_back({2,"",a[0]}); return cv(0); });
	// ------------------------------------------------ memory
	for(auto n:{"_Znwm"}) reg(n,[](Mr m,Tr,Dr,Ar a)->Val { return cv(allocMem(m,a[0],16,false,"new")); });
	reg("_Znam",[](Mr m,Tr,Dr,Ar a)->Val { return cv(allocMem(m,a[0],16,false,"new[]")); });
	for(auto n:{"_ZnwmSt11align_val_t","_ZnwmRKSt9nothrow_t"}) reg(n,[](Mr m,Tr,Dr,Ar a)->Val { return cv(allocMem(m,a[0],a[1].c<4096?a[1].c:16,false,"new")); });
	for(auto n:{"_ZnamSt11align_val_t","_ZnamRKSt9nothrow_t"}) reg(n,[](Mr m,Tr,Dr,Ar a)->Val { return cv(allocMem(m,a[0],a[1].c<4096?a[1].c:16,false,"new[]")); });
	for(auto n:{"_ZdlPv","_ZdlPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) reg(n,[](Mr m,Tr,Dr,Ar a)->Val { m.freeObj(m.concretize(a[0],64),"new"); return cv(0); });
	for(auto n:{"_ZdaPv","_ZdaPvm","_ZdaPvSt11align_val_t"}) reg(n,[](Mr m,Tr,Dr,Ar a)->Val { m.freeObj(m.concretize(a[0],64),"new[]"); return cv(0); });
	reg("malloc",[](Mr m,Tr,Dr,Ar a)->Val { return cv(allocMem(m,a[0],16,false,"malloc")); });
	reg("calloc",[](Mr m,Tr,Dr,Ar a)->Val { return cv(allocMem(m,cv(m.concretize(a[0],64)*m.concretize(a[1],64)),16,true,"malloc")); });
	for(auto n:{"aligned_alloc","memalign"}) reg(n,[](Mr m,Tr,Dr,Ar a)->Val { return cv(allocMem(m,a[1],m.concretize(a[0],64),false,"malloc")); });
	reg("posix_memalign",[](Mr m,Tr,Dr,Ar a)->Val { uint64_t p=allocMem(m,a[2],m.concretize(a[1],64),false,"malloc"); m.store(a[0].c,8,cv(p)); return cv(0); });
	reg("free",[](Mr m,Tr,Dr,Ar a)->Val { m.freeObj(m.concretize(a[0],64),"malloc"); return cv(0); });
	reg("realloc",[](Mr m,Tr,Dr,Ar a)->Val { uint64_t p=m.concretize(a[0],64); uint64_t q=allocMem(m,a[1],16,false,"malloc"); if(p) { uint64_t n=std::min(m.objs[p>>32].size,m.objs[q>>32].size); m.copyMem(q,p,n); m.freeObj(p,"malloc"); } return cv(q); });
	BFn cpy=[](Mr m,Tr,Dr,Ar a)->Val { m.copyMem(m.concretize(a[0],64),m.concretize(a[1],64),m.concretize(a[2],64)); return a[0]; };
	for(auto n:{"memcpy","memmove"}) reg(n,cpy); for(auto n:{"llvm.memcpy.p0.p0.i64","llvm.memmove.p0.p0.i64","llvm.memcpy.p0.p0.i32","llvm.memmove.p0.p0.i32"}) reg(n,cpy);
	BFn mset=[](Mr m,Tr,Dr,Ar a)->Val { uint64_t p=m.concretize(a[0],64),n=m.concretize(a[2],64); if(!n) return a[0]; uint64_t off; Obj& o=m.access(p,n,true,off); m.race(p,n,true,false,o); m.clearSym(o,off,n); if(m.undef(a[1])) { memset(&o.s[off],0,n); return a[0]; } uint8_t c=m.concretize(a[1],8); memset(&o.b[off],c,n); memset(&o.s[off],1,n); return a[0]; };
	reg("memset",mset); reg("llvm.memset.p0.i64",mset); reg("llvm.memset.p0.i32",mset);
	BFn cmp=[](Mr m,Tr,Dr,Ar a)->Val { uint64_t p=m.concretize(a[0],64),q=m.concretize(a[1],64),n=m.concretize(a[2],64); vector<Val> X,Y; bool sym=false;
		for(uint64_t i=0;i<n;i++) { X.push_back(m.load(p+i,1,false)); Y.push_back(m.load(q+i,1,false)); for(Val* v:{&X.back(),&Y.back()}) { if(m.undef(*v)||(v->e&&v->e->k==E_REAL)) *v=cv(m.concretize(*v,8)); if(v->e) sym=true; } if(!sym&&X[i].c!=Y[i].c) return cv((uint32_t)((int)X[i].c-(int)Y[i].c)); }
		if(!sym) return cv(0);
		const Expr* r=eConst(32,0); for(uint64_t i=n;i-->0;) { const Expr* x=m.bvOf(X[i],8),*y=m.bvOf(Y[i],8); r=eIte(eBin(E_EQ,x,y),r,eIte(eBin(E_ULT,x,y),eConst(32,0xffffffffu),eConst(32,1))); } return Machine::fromE(r); };
	reg("memcmp",cmp); reg("bcmp",cmp);
	reg("strlen",[](Mr m,Tr,Dr,Ar a)->Val { return cv(m.cstr(a[0].c).size()); });
	reg("strcmp",[](Mr m,Tr,Dr,Ar a)->Val { return cv((uint32_t)m.cstr(a[0].c).compare(m.cstr(a[1].c))); });
	reg("memchr",[](Mr m,Tr,Dr,Ar a)->Val { uint64_t p=a[0].c; uint64_t n=m.concretize(a[2],64); uint8_t c=a[1].c; for(uint64_t i=0;i<n;i++) if((uint8_t)m.concretize(m.load(p+i,1,false),8)==c) return cv(p+i); return cv(0); });
	// ------------------------------------------------ LLVM intrinsics
	for(auto n:{"llvm.lifetime.","llvm.assume","llvm.experimental.noalias","llvm.donothing","llvm.prefetch","llvm.stackrestore","llvm.invariant.","llvm.dbg."}) regp(n,nop);
	regp("llvm.stacksave",nop); regp("llvm.trap",[](Mr m,Tr,Dr,Ar)->Val { m.violate("trap","trap"); });
	regp("llvm.expect",id0); regp("llvm.launder",id0); regp("llvm.strip.invariant",id0); regp("llvm.is.constant",nop); regp("llvm.ptr.annotation",id0);
	regp("llvm.objectsize",[](Mr,Tr,Dr,Ar)->Val { return cv(~0ull); });
	BFn fab=[](Mr m,Tr,Dr,Ar a)->Val { return m.fabsV(a[0]); }; reg("llvm.fabs.f64",fab); reg("fabs",fab);
	BFn sq=[](Mr m,Tr,Dr,Ar a)->Val { return m.sqrtV(a[0]); }; reg("llvm.sqrt.f64",sq); reg("sqrt",sq); reg("sqrtf",[](Mr m,Tr,Dr,Ar a)->Val { if(!a[0].e) return cv(m.asU((double)(float)std::sqrt(m.asD(a[0].c)))); return m.sqrtV(a[0]); });
	BFn fma_=[](Mr m,Tr,Dr,Ar a)->Val { return m.fop(O_FADD,m.fop(O_FMUL,a[0],a[1]),a[2]); }; reg("llvm.fma.f64",fma_); reg("llvm.fmuladd.f64",fma_); reg("fma",fma_);
	auto mm=[](bool mx)->BFn { return [mx](Mr m,Tr,Dr,Ar a)->Val { if(m.undef(a[0])||m.undef(a[1])) m.violate("uninit","use of an uninitialised value"); const Expr* c=m.fcmp(CmpInst::FCMP_OLT,a[0],a[1]); bool lt=m.branch(c); return lt==mx?a[1]:a[0]; }; };
	for(auto n:{"llvm.maxnum.f64","llvm.maximum.f64","fmax"}) reg(n,mm(true)); for(auto n:{"llvm.minnum.f64","llvm.minimum.f64","fmin"}) reg(n,mm(false));
	auto d1=[](double(*f)(double))->BFn { return [f](Mr m,Tr,Dr,Ar a)->Val { if(m.undef(a[0])) m.violate("uninit","use of an uninitialised real value"); if(a[0].e) throw EngineError("transcendental function of a symbolic real"); return cv(Machine::asU(f(Machine::asD(a[0].c)))); }; };
	for(auto n:{"log","llvm.log.f64"}) reg(n,d1([](double x){return std::log(x);})); for(auto n:{"log2","llvm.log2.f64"}) reg(n,d1([](double x){return std::log2(x);})); for(auto n:{"log10","llvm.log10.f64"}) reg(n,d1([](double x){return std::log10(x);}));
	for(auto n:{"floor","llvm.floor.f64"}) reg(n,d1([](double x){return std::floor(x);})); for(auto n:{"ceil","llvm.ceil.f64"}) reg(n,d1([](double x){return std::ceil(x);})); for(auto n:{"exp","llvm.exp.f64"}) reg(n,d1([](double x){return std::exp(x);})); for(auto n:{"round","llvm.round.f64"}) reg(n,d1([](double x){return std::round(x);}));
	for(auto n:{"pow","llvm.pow.f64"}) reg(n,[](Mr m,Tr,Dr,Ar a)->Val { if(a[1].e) throw EngineError("pow"); double e=Machine::asD(a[1].c); if(!a[0].e) return cv(Machine::asU(std::pow(Machine::asD(a[0].c),e))); if(e==2) return m.fop(O_FMUL,a[0],a[0]); if(e==0.5) return m.sqrtV(a[0]); throw EngineError("pow"); });
	reg("llvm.powi.f64.i32",[](Mr m,Tr,Dr,Ar a)->Val { int e=(int)m.concretize(a[1],32); Val r=cv(Machine::asU(1.0)); for(int i=0;i<std::abs(e);i++) r=m.fop(O_FMUL,r,a[0]); if(e<0) r=m.fop(O_FDIV,cv(Machine::asU(1.0)),r); return r; });
	reg("llvm.copysign.f64",[](Mr m,Tr,Dr,Ar a)->Val { if(a[0].e||a[1].e) throw EngineError("copysign"); return cv(Machine::asU(std::copysign(Machine::asD(a[0].c),Machine::asD(a[1].c)))); });
	reg("llvm.is.fpclass.f64",[](Mr m,Tr,Dr,Ar a)->Val { if(a[0].e) return cv(0); double x=Machine::asD(a[0].c); unsigned k=a[1].c; bool r=false; if(std::isnan(x)) r=k&3; else if(std::isinf(x)) r=k&(x<0?4:512); else r=k&(8|16|32|64|128|256); return cv(r); });
	for(int w:{8,16,32,64}) { string W="i"+std::to_string(w); unsigned uw=w;
		auto sel=[uw](EK k,bool mx)->BFn { return [uw,k,mx](Mr m,Tr,Dr,Ar a)->Val { if(m.undef(a[0])||m.undef(a[1])) return Val{0,eUndef(uw)}; const Expr* x=m.bvOf(a[0],uw),*y=m.bvOf(a[1],uw); const Expr* lt=eBin(k,x,y); return Machine::fromE(mx?eIte(lt,y,x):eIte(lt,x,y)); }; };
		reg(strdup(("llvm.smax."+W).c_str()),sel(E_SLT,true)); reg(strdup(("llvm.smin."+W).c_str()),sel(E_SLT,false)); reg(strdup(("llvm.umax."+W).c_str()),sel(E_ULT,true)); reg(strdup(("llvm.umin."+W).c_str()),sel(E_ULT,false));
		reg(strdup(("llvm.abs."+W).c_str()),[uw](Mr m,Tr,Dr,Ar a)->Val { if(m.undef(a[0])) return a[0]; const Expr* x=m.bvOf(a[0],uw); const Expr* n=eBin(E_SLT,x,eConst(uw,0)); return Machine::fromE(eIte(n,eBin(E_SUB,eConst(uw,0),x),x)); });
		auto cnt=[uw](int kind)->BFn { return [uw,kind](Mr m,Tr,Dr,Ar a)->Val { uint64_t x=m.concretize(a[0],uw); int r; if(kind==2) r=__builtin_popcountll(x); else if(kind==0) r=x?__builtin_clzll(x)-(64-uw):uw; else r=x?__builtin_ctzll(x):uw; return cv(r); }; };
		reg(strdup(("llvm.ctlz."+W).c_str()),cnt(0)); reg(strdup(("llvm.cttz."+W).c_str()),cnt(1)); reg(strdup(("llvm.ctpop."+W).c_str()),cnt(2));
		auto ovf=[uw](int op,bool sg)->BFn { return [uw,op,sg](Mr m,Tr,Dr,Ar a)->Val { uint64_t x=m.concretize(a[0],uw),y=m.concretize(a[1],uw); __int128 p=sg?sextw(x,uw):(__int128)x,q=sg?sextw(y,uw):(__int128)y; __int128 r=op==0?p+q:op==1?p-q:p*q; uint64_t z=(uint64_t)r&maskw(uw); __int128 back=sg?sextw(z,uw):(__int128)z; return m.aggOf({cv(z),cv(back!=r)}); }; };
		const char* on[]={"add","sub","mul"}; for(int k=0;k<3;k++) { reg(strdup(("llvm.s"+string(on[k])+".with.overflow."+W).c_str()),ovf(k,true)); reg(strdup(("llvm.u"+string(on[k])+".with.overflow."+W).c_str()),ovf(k,false)); }
		reg(strdup(("llvm.usub.sat."+W).c_str()),[uw](Mr m,Tr,Dr,Ar a)->Val { uint64_t x=m.concretize(a[0],uw),y=m.concretize(a[1],uw); return cv(x>y?x-y:0); });
		for(int l=0;l<2;l++) reg(strdup(((l?"llvm.fshl.":"llvm.fshr.")+W).c_str()),[uw,l](Mr m,Tr,Dr,Ar a)->Val { uint64_t x=m.concretize(a[0],uw),y=m.concretize(a[1],uw),s=m.concretize(a[2],uw)%uw; if(!s) return l?cv(x):cv(y); return cv((l?(x<<s)|(y>>(uw-s)):(x<<(uw-s))|(y>>s))&maskw(uw)); }); }
	reg("abs",[](Mr m,Tr,Dr,Ar a)->Val { const Expr* x=m.bvOf(a[0],32); return Machine::fromE(eIte(eBin(E_SLT,x,eConst(32,0)),eBin(E_SUB,eConst(32,0),x),x)); });
	regp("llvm.eh.typeid.for",[](Mr m,Tr,Dr,Ar a)->Val { return cv((uint32_t)(a[0].c>>32)); });
	// ------------------------------------------------ OpenMP runtime
	reg("__kmpc_global_thread_num",[](Mr m,Tr t,Dr,Ar)->Val { return cv(t.tid); });
	reg("omp_get_thread_num",[](Mr m,Tr t,Dr,Ar)->Val { return cv(t.tid); });
	reg("omp_get_num_threads",[](Mr m,Tr t,Dr,Ar)->Val { return cv(std::max(1,m.teams[t.team].size)); });
	for(auto n:{"omp_get_max_threads","omp_get_num_procs"}) reg(n,[](Mr m,Tr t,Dr,Ar)->Val { return cv(m.nthreads); });
	reg("omp_set_num_threads",[](Mr m,Tr t,Dr,Ar a)->Val { m.nthreads=(int)m.concretize(a[0],32); return cv(0); });
	reg("omp_in_parallel",[](Mr m,Tr t,Dr,Ar)->Val { return cv(t.team>0&&m.teams[t.team].size>1); });
	reg("omp_get_wtime",[](Mr m,Tr t,Dr,Ar)->Val { return cv(Machine::asU(1.0)); });
	reg("__kmpc_push_num_threads",[](Mr m,Tr t,Dr,Ar a)->Val { m.pushedThreads=(int)m.concretize(a[2],32); return cv(0); });
	reg("__kmpc_fork_call",[](Mr m,Tr t,Dr d,Ar a)->Val { auto it=faddr.find(m.concretize(a[2],64)); if(it==faddr.end()) throw EngineError("fork_call target"); vector<Val> rest(a.begin()+3,a.end()); int T=t.team>0?1:m.nthreads; if(m.pushedThreads>0&&t.team==0) T=m.pushedThreads; m.pushedThreads=0; newTeam(m,t,d,T,it->second,rest); return cv(0); });
	reg("__kmpc_fork_call_if",[](Mr m,Tr t,Dr d,Ar a)->Val { auto it=faddr.find(m.concretize(a[2],64)); if(it==faddr.end()) throw EngineError("fork_call target"); bool par=(uint32_t)m.concretize(a[3],32); vector<Val> rest(a.begin()+4,a.end()); newTeam(m,t,d,t.team>0||!par?1:m.nthreads,it->second,rest); return cv(0); });
	reg("__kmpc_serialized_parallel",[](Mr m,Tr t,Dr,Ar)->Val { if(t.curLoop.empty()&&m.teams[t.team].size<=1) { t.loopno=0; m.teams[t.team].loops.clear(); } return cv(0); }); reg("__kmpc_end_serialized_parallel",nop);
	reg("__kmpc_barrier",[](Mr m,Tr t,Dr d,Ar)->Val { barrierIfTeam(m,d); return cv(0); });
	reg("__kmpc_flush",nop);
	for(auto n:{"__kmpc_for_static_init_4","__kmpc_for_static_init_4u"}) reg(n,staticInit(4)); for(auto n:{"__kmpc_for_static_init_8","__kmpc_for_static_init_8u"}) reg(n,staticInit(8));
	reg("__kmpc_for_static_fini",nop);
	for(auto n:{"__kmpc_dispatch_init_4","__kmpc_dispatch_init_4u"}) reg(n,dispInit(4)); for(auto n:{"__kmpc_dispatch_init_8","__kmpc_dispatch_init_8u"}) reg(n,dispInit(8));
	for(auto n:{"__kmpc_dispatch_next_4","__kmpc_dispatch_next_4u"}) reg(n,dispNext(4)); for(auto n:{"__kmpc_dispatch_next_8","__kmpc_dispatch_next_8u"}) reg(n,dispNext(8));
	for(auto n:{"__kmpc_dispatch_fini_4","__kmpc_dispatch_fini_4u","__kmpc_dispatch_fini_8","__kmpc_dispatch_fini_8u","__kmpc_dispatch_deinit"}) reg(n,nop);
	BFn red=[](Mr m,Tr t,Dr,Ar)->Val { t.crit=true; return cv(1); }; reg("__kmpc_reduce_nowait",red); reg("__kmpc_reduce",red);
	reg("__kmpc_end_reduce_nowait",[](Mr m,Tr t,Dr,Ar)->Val { t.crit=false; return cv(0); });
	reg("__kmpc_end_reduce",[](Mr m,Tr t,Dr d,Ar)->Val { t.crit=false; barrierIfTeam(m,d); return cv(0); });
	reg("__kmpc_critical",[](Mr m,Tr t,Dr,Ar)->Val { t.crit=true; return cv(0); }); reg("__kmpc_end_critical",[](Mr m,Tr t,Dr,Ar)->Val { t.crit=false; return cv(0); }); reg("__kmpc_critical_with_hint",[](Mr m,Tr t,Dr,Ar)->Val { t.crit=true; return cv(0); });
	reg("__kmpc_master",[](Mr m,Tr t,Dr,Ar)->Val { return cv(t.tid==0); }); reg("__kmpc_end_master",nop); reg("__kmpc_masked",[](Mr m,Tr t,Dr,Ar)->Val { return cv(t.tid==0); }); reg("__kmpc_end_masked",nop);
	reg("__kmpc_single",[](Mr m,Tr t,Dr,Ar)->Val { int k=t.serial2++; Team& tm=m.teams[t.team]; if(tm.singleCnt[k]) return cv(0); tm.singleCnt[k]=1; if(tm.size>1) { t.logical=m.nextLogical++; } return cv(1); });
	reg("__kmpc_end_single",[](Mr m,Tr t,Dr,Ar)->Val { t.logical=t.baselog; return cv(0); });
	// ------------------------------------------------ C++ runtime
	reg("__cxa_allocate_exception",[](Mr m,Tr,Dr,Ar a)->Val { return cv(m.newObj(m.concretize(a[0],64)+16,K_HEAP,16,true,"exc")); });
	reg("__cxa_free_exception",nop);
	reg("__cxa_throw",[](Mr m,Tr t,Dr,Ar a)->Val { m.excTIs[a[0].c]=a[1].c; m.unwinding=true; m.throwExc(t,a[0].c,a[1].c); return cv(0); });
	reg("__cxa_begin_catch",[](Mr m,Tr t,Dr,Ar a)->Val { t.caughtExc.push_back(a[0].c); return a[0]; });
	reg("__cxa_end_catch",[](Mr m,Tr t,Dr,Ar a)->Val { if(!t.caughtExc.empty()) t.caughtExc.pop_back(); return cv(0); });
	reg("__cxa_get_exception_ptr",id0);
	reg("__cxa_rethrow",[](Mr m,Tr t,Dr,Ar a)->Val { if(t.caughtExc.empty()) m.violate("exception","rethrow without exception"); uint64_t o=t.caughtExc.back(); m.unwinding=true; m.throwExc(t,o,m.excTIs[o]); return cv(0); });
	reg("__cxa_atexit",nop); reg("__cxa_pure_virtual",[](Mr m,Tr,Dr,Ar)->Val { m.violate("memory","pure virtual call"); });
	reg("__cxa_guard_acquire",[](Mr m,Tr t,Dr,Ar a)->Val { t.guard++; Val v=m.load(a[0].c,1,false); if(v.c&1) t.guard--; return cv(!(v.c&1)); }); reg("__cxa_guard_release",[](Mr m,Tr t,Dr,Ar a)->Val { m.store(a[0].c,1,cv(1)); t.guard--; return cv(0); }); reg("__cxa_guard_abort",nop);
	reg("__dynamic_cast",[](Mr m,Tr t,Dr,Ar a)->Val { uint64_t p=m.concretize(a[0],64); if(!p) return cv(0); uint64_t vp=m.load(p,8,false).c; uint64_t ti=m.load(vp-8,8,false).c; int64_t top=(int64_t)m.load(vp-16,8,false).c; if(m.derives(ti,a[2].c)) return cv(p+top); return cv(0); });
	reg("vp_expect_abort",[](Mr m,Tr,Dr,Ar a)->Val { m.abortOK=(uint32_t)a[0].c; return cv(0); });
	BFn term=[](Mr m,Tr,Dr,Ar)->Val { if(m.abortOK) { throw PathEnd{"abort"}; } m.violate("abort","abnormal termination"); };
	for(auto n:{"_ZSt9terminatev","abort","__clang_call_terminate","__cxa_call_unexpected","_ZSt10unexpectedv"}) reg(n,term);
	for(auto n:{"exit","_exit"}) reg(n,[](Mr m,Tr,Dr,Ar)->Val { m.violate("abort","exit called"); });
	reg("__assert_fail",[](Mr m,Tr,Dr,Ar a)->Val { m.violate("assertfail","assertion of the library fails: "+m.cstr(a[0].c)); });
	BFn exctor=[](Mr m,Tr,Dr,Ar a)->Val { for(int i=0;i<16;i+=8) m.store(a[0].c+i,8,cv(0)); return cv(0); };
	for(auto n:{"_ZNSt13runtime_errorC","_ZNSt11logic_errorC","_ZNSt16invalid_argumentC","_ZNSt12out_of_rangeC","_ZNSt12length_errorC","_ZNSt12domain_errorC","_ZNSt9exceptionC","_ZNSt11range_errorC"}) regp(n,exctor);
	for(auto n:{"_ZNSt13runtime_errorD","_ZNSt11logic_errorD","_ZNSt16invalid_argumentD","_ZNSt12out_of_rangeD","_ZNSt12length_errorD","_ZNSt9exceptionD","_ZNSt12domain_errorD"}) regp(n,nop);
	auto thr=[](const char* ti)->BFn { return [ti](Mr m,Tr t,Dr,Ar)->Val { throwStd(m,t,ti); return cv(0); }; };
	regp("_ZSt20__throw_length_error",thr("_ZTISt12length_error")); regp("_ZSt19__throw_logic_error",thr("_ZTISt11logic_error")); regp("_ZSt24__throw_out_of_range_fmt",thr("_ZTISt12out_of_range")); regp("_ZSt20__throw_out_of_range",thr("_ZTISt12out_of_range")); regp("_ZSt24__throw_invalid_argument",thr("_ZTISt16invalid_argument")); regp("_ZSt17__throw_bad_allocv",thr("_ZTISt9bad_alloc")); regp("_ZSt28__throw_bad_array_new_lengthv",thr("_ZTISt20bad_array_new_length")); regp("__cxa_throw_bad_array_new_length",thr("_ZTISt20bad_array_new_length"));
	// std::list node hooks
	auto hook=[](Mr m,uint64_t n,uint64_t pos) { uint64_t prev=m.load(pos+8,8,false).c; m.store(n,8,cv(pos)); m.store(n+8,8,cv(prev)); m.store(prev,8,cv(n)); m.store(pos+8,8,cv(n)); };
	reg("_ZNSt8__detail15_List_node_base7_M_hookEPS0_",[hook](Mr m,Tr,Dr,Ar a)->Val { hook(m,a[0].c,a[1].c); return cv(0); });
	reg("_ZNSt8__detail15_List_node_base9_M_unhookEv",[](Mr m,Tr,Dr,Ar a)->Val { uint64_t n=m.load(a[0].c,8,false).c,p=m.load(a[0].c+8,8,false).c; m.store(p,8,cv(n)); m.store(n+8,8,cv(p)); return cv(0); });
	// strings converted to numbers
	for(auto n:{"strtol","__isoc23_strtol"}) reg(n,[](Mr m,Tr,Dr,Ar a)->Val { string s=m.cstr(a[0].c); char* e; long v=strtol(s.c_str(),&e,(int)a[2].c); if(a[1].c) m.store(a[1].c,8,cv(a[0].c+(e-s.c_str()))); return cv(v); });
	for(auto n:{"atoi"}) reg(n,[](Mr m,Tr,Dr,Ar a)->Val { return cv((uint32_t)atoi(m.cstr(a[0].c).c_str())); });
	reg("__errno_location",[](Mr m,Tr,Dr,Ar a)->Val { if(!m.errnoObj) m.errnoObj=m.newObj(8,K_HEAP,16,true,"exc"); return cv(m.errnoObj); });
	// ------------------------------------------------ streams: output is discarded
	for(auto n:{"printf","fprintf","puts","putchar","fflush","snprintf","vprintf"}) reg(n,nop);
	for(auto n:{"_ZNSolsE","_ZStls","_ZSt4endl","_ZSt5flush","_ZNSo","_ZSt16__ostream_insert","_ZNSt8ios_base","_ZNSt9basic_ios","_ZNKSt9basic_ios","_ZNSt6locale","_ZNSt15basic_streambuf","_ZNSt13basic_filebuf","_ZNKSt13basic_filebuf","_ZNSt12__basic_file","_ZNKSt12__basic_file","_ZNKSt5ctype","_ZSt16__throw_bad_cast","_ZNSt14basic_ofstream","_ZNSt14basic_ifstream","_ZNSt7__cxx1118basic_stringstream","_ZNSt7__cxx1115basic_stringbuf","_ZNSt7__cxx1119basic_ostringstream","_ZNSi"}) regp(n,id0);
	reg("clock",nop); reg("gettimeofday",[](Mr m,Tr,Dr,Ar a)->Val { m.store(a[0].c,8,cv(0)); m.store(a[0].c+8,8,cv(0)); return cv(0); }); reg("strcpy",[](Mr m,Tr,Dr,Ar a)->Val { string s=m.cstr(a[1].c); for(size_t i=0;i<=s.size();i++) m.store(a[0].c+i,1,cv((uint8_t)s.c_str()[i])); return a[0]; }); reg("time",nop);
	#include "streams.inc"
}
