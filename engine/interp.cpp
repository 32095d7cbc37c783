// Symbolic executor over LLVM IR for the BLASTed verification harnesses.
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cfloat>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <deque>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <random>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::set;

uint64_t foldBin(EK k,unsigned w,uint64_t a,uint64_t b,bool& ok);

// ============================================================ decoded program
enum Op : uint8_t { O_ALLOCA,O_LOAD,O_STORE,O_GEP,O_IBIN,O_FADD,O_FSUB,O_FMUL,O_FDIV,O_FREM,O_FNEG,O_ICMP,O_FCMP,O_TRUNC,O_ZEXT,O_SEXT,O_BITCAST,O_FPTOSI,O_FPTOUI,O_SITOFP,O_UITOFP,O_SELECT,O_BR,O_CBR,O_SWITCH,O_RET,O_CALL,O_LANDINGPAD,O_RESUME,O_UNREACHABLE,O_INSERTV,O_EXTRACTV,O_RMW,O_CMPXCHG,O_NOP,O_FREEZE,O_UNSUP,O_FPEXT,O_FPTRUNC };
struct Opnd { int reg=-1; Val v{0,nullptr}; };
struct Edge { int pc; vector<std::pair<int,Opnd>> moves; };
struct DInst {
	Op op; uint8_t sub=0; uint8_t w=0, w2=0; bool isf=false, agg=false, atomic=false; int dst=-1; uint64_t imm=0;
	vector<Opnd> o; vector<std::pair<Opnd,std::pair<int64_t,int>>> gep; vector<Edge> e; vector<uint64_t> cases; vector<unsigned> idx;
	Type* ty=nullptr; Instruction* I=nullptr; Function* callee=nullptr; int builtin=-1; bool done=false;
};
struct DFunc { Function* F; int nregs=0; vector<DInst> code; int nargs=0; };

// ============================================================ memory
enum OKind : uint8_t { K_GLOBAL, K_STACK, K_HEAP, K_FUNC, K_EXT };
struct Obj {
	uint64_t size=0, base=0; OKind kind; bool alive=true, ro=false; int owner=0; int region=0; string name; const char* allocfn="";
	vector<uint8_t> b, s;   // s: 0 uninit 1 concrete 2 symbolic
	map<uint32_t,std::pair<const Expr*,uint8_t>> sym;
	Function* fn=nullptr;
};
struct Frame { DFunc* f; int pc; size_t rb; vector<uint32_t> allocas; DInst* call; };
struct LoopRec { int64_t next, ub, st; int64_t chunk; int64_t k=0; int users=0; bool set=false; };
enum TState { T_RUN, T_BARRIER, T_JOIN, T_DONE };
struct Thread { int id; int team; int tid; vector<Frame> fr; vector<Val> regs; TState st=T_RUN; int loopno=0; vector<std::pair<int,int>> curLoop; int logical=0, baselog=0; bool crit=false; int guard=0; int serial=0, serial2=0; vector<uint64_t> caughtExc; };
struct Team { int size; int parent; int phase=0; vector<int> members; vector<LoopRec> loops; set<string> single; int singles=0; map<int,int> singleCnt; };
struct Acc { int w=-1; bool wc=false, wa=false; int r=-1, r2=-1; bool rc=false, ra=false; };

struct PathEnd { string why; };
struct Violation { string kind,msg,loc; };

static Module* M; static const DataLayout* DL; static LLVMContext* CTX;
static std::unordered_map<Function*,DFunc*> dfuncs;
static vector<Obj> initObjs;   // globals template
static std::unordered_map<const GlobalValue*,uint64_t> gaddr;
static std::unordered_map<uint64_t,Function*> faddr;
static map<string,int> cfg;
static long instBudget=60000000, totalInst=0; static double timeLimit=1e9; static int nproc=8; static long maxPaths=1000000000;
static string entry; static std::chrono::steady_clock::time_point t0;
static int sampleEvery=0, samplesMax=4;
static double el() { return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); }

// ---- builtins
typedef std::function<Val(struct Machine&,Thread&,DInst&,vector<Val>&)> BFn;
static vector<BFn> bfns; static map<string,int> bname;

struct SymRec { string name; const Expr* e; int kind; /*0 int,1 real,2 pick*/ int64_t pick; int atom; };
struct Result { long paths=0, completed=0, pruned=0, insts=0, branches=0, decisions=0, asserts=0, assertsTrivial=0, covers=0, fsat=0, assumedNZ=0, uninc=0; map<string,long> cover; map<string,string> viol; vector<string> violJson; vector<string> samples; vector<string> errors; bool incomplete=false; long witness=0, outs=0; };
static Result R;
static vector<vector<uint64_t>> work;

static string jesc(const string&s) { string r; for(char c:s) { if(c=='"'||c=='\\') { r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }

static string locOf(Instruction* I) {
	if(!I) return "?"; if(auto& d=I->getDebugLoc()) { auto* L=d.get(); string s; int n=0; while(L&&n<4) { string f=L->getFilename().str(); size_t p=f.rfind('/'); if(p!=string::npos) f=f.substr(p+1); if(n) s+=" <- "; s+=f+":"+std::to_string(L->getLine()); L=L->getInlinedAt(); n++; } return s; }
	return "?";
}
static void decode(DFunc* d);
static DFunc* getDF(Function* F) { auto& d=dfuncs[F]; if(!d) { d=new DFunc; d->F=F; decode(d); } return d; }

static std::unordered_map<string,const Expr*> ivarTab; static std::unordered_map<string,int> rvarTab;
static std::unordered_map<string,int> feasCache;

struct Machine {
	vector<Obj> objs; vector<Thread> th; vector<Team> teams; int cur=0; int regionSerial=0, nextLogical=1;
	vector<const Expr*> pc; set<const Expr*> pcset; vector<uint64_t> prefix; size_t dpos=0; vector<uint64_t> taken;
	vector<SymRec> syms; map<string,int> symcnt; vector<std::pair<string,Val>> outs; set<string> covered;
	bool strictDiv=false; int nthreads=1; long insts=0; bool raceOK=false, abortOK=false; int fixedMode=0; int asyncBudget=0; bool asyncOn=false;
	std::unordered_map<uint64_t,Acc> acc; DInst* ci=nullptr; Val excObj{0,nullptr}; uint64_t excTI=0; bool unwinding=false;
	int heapBase=0; int asyncUsed=0; vector<std::pair<uint64_t,uint64_t>> ptrs; bool unwrapNan=false; long heapAllocs=0; long failAlloc=-1;
	vector<string> tokens; size_t tokpos=0; std::map<uint64_t,bool> streamBad;
	struct Tok { int kind; string s; Val v; }; vector<vector<Tok>> lines; struct Stm { vector<vector<Tok>> L; size_t ln=0,pos=0; bool open=false; string out; }; std::map<uint64_t,Stm> stm; uint64_t streamVT=0; std::map<uint64_t,uint64_t> ostm;
	vector<uint64_t> schedChoices;

	// ---------------------------------------------------- path condition
	[[noreturn]] void violate(string kind,const string& msg,const Expr* goalNeg=nullptr) {
		if(fixedStore&&kind=="assert") kind="fixed";
		vector<const Expr*> cs=pc; if(goalNeg) cs.push_back(goalNeg);
		if(getenv("VP_DUMP")) { FILE* f=fopen(getenv("VP_DUMP"),"a"); for(auto c:cs) fprintf(f,"PC %s\n",vpshow(c).c_str()); fclose(f); } emitViolation(kind,msg,cs); throw PathEnd{"violation"};
	}
	string stackLoc() { string s=ci?locOf(ci->I):"?"; Thread& t=th[cur]; int n=0; for(int i=(int)t.fr.size()-1;i>0&&n<6;i--,n++) { if(t.fr[i].call) s+=" <- "+locOf(t.fr[i].call->I); } return s; }
	bool fullModel(const vector<const Expr*>& cs,Model& m,unsigned tmo,unsigned tries=400) {
		if(!fullModel0(cs,m,tmo,tries)) return false;
		int k=0; for(auto& s:syms) if(s.kind==1&&!m.reals.count(s.atom)) { m.reals[s.atom]=1.25+0.375*(k*5%13); k++; } // inputs the path leaves free: nothing degenerate
		return true;
	}
	bool fullModel0(const vector<const Expr*>& cs,Model& m,unsigned tmo,unsigned tries) {
		if(guessModel(cs,m,tries,taken.size()+17)) return true;
		// slice into independent components to keep the queries small
		vector<set<int64_t>> sy(cs.size()); for(size_t i=0;i<cs.size();i++) exprSyms(cs[i],sy[i]);
		vector<int> comp(cs.size()); for(size_t i=0;i<cs.size();i++) comp[i]=i;
		std::function<int(int)> fd=[&](int x){ return comp[x]==x?x:comp[x]=fd(comp[x]); };
		std::unordered_map<int64_t,int> own;
		for(size_t i=0;i<cs.size();i++) for(auto s:sy[i]) { auto it=own.find(s); if(it==own.end()) own[s]=i; else comp[fd(i)]=fd(it->second); }
		map<int,vector<const Expr*>> g; for(size_t i=0;i<cs.size();i++) g[fd(i)].push_back(cs[i]);
		for(auto& c:g) { Model mm; if(!guessModel(c.second,mm,tries,7)) { mm=Model(); if(solverCheck(c.second,&mm,tmo)!=SAT) return false; }
			for(auto&x:mm.ints) m.ints[x.first]=x.second; for(auto&x:mm.reals) m.reals[x.first]=x.second; }
		return true;
	}
	string modelJson(const Model& m) {
		Evaluator ev(m); std::ostringstream o; o<<"["; bool f=true;
		for(auto& s:syms) { if(!f) o<<","; f=false; char buf[64];
			if(s.kind==0) snprintf(buf,64,"%lld",(long long)sextw(ev.bv(s.e),s.e->w<32?64:s.e->w));
			else if(s.kind==2) snprintf(buf,64,"%lld",(long long)s.pick);
			else snprintf(buf,64,"%.17g",ev.atom(s.atom));
			o<<"[\""<<jesc(s.name)<<"\","<<buf<<"]"; }
		o<<"]"; return o.str();
	}
	string takenJson() { std::ostringstream o; o<<"["; for(size_t i=0;i<taken.size();i++) o<<(i?",":"")<<taken[i]; o<<"]"; return o.str(); }
	void emitViolation(const string& kind,const string& msg,const vector<const Expr*>& cs) {
		string loc=stackLoc(); string first=loc.substr(0,loc.find(" <- "));
		string key=kind+"|"+msg+"|"+(kind=="assert"?string():first);
		if(R.viol.count(key)) { R.viol[key]+="+"; return; }
		Model m; bool ok=fullModel(cs,m,30000,3000);
		std::ostringstream o; o<<"{\"kind\":\""<<jesc(kind)<<"\",\"msg\":\""<<jesc(msg)<<"\",\"loc\":\""<<jesc(loc)<<"\",\"model_ok\":"<<(ok?"true":"false")<<",\"model\":"<<(ok?modelJson(m):"[]")<<",\"decisions\":"<<takenJson()<<",\"sched\":[";
		for(size_t i=0;i<schedChoices.size();i++) o<<(i?",":"")<<schedChoices[i];
		o<<"]}";
		R.viol[key]=o.str(); R.violJson.push_back(o.str());
	}
	vector<const Expr*> slice(const Expr* c) {
		set<int64_t> syms; exprSyms(c,syms); vector<const Expr*> out; vector<bool> used(pc.size(),false); bool ch=true;
		vector<set<int64_t>> ps(pc.size()); for(size_t i=0;i<pc.size();i++) exprSyms(pc[i],ps[i]);
		while(ch) { ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]) { bool hit=false; for(auto s:ps[i]) if(syms.count(s)) { hit=true; break; } if(hit) { used[i]=true; ch=true; syms.insert(ps[i].begin(),ps[i].end()); out.push_back(pc[i]); } } }
		return out;
	}
	Res feasible(const Expr* c,Model* m=nullptr,unsigned tmo=0) {
		if(c->k==E_CONST) return c->cval?SAT:UNSAT;
		auto cs=slice(c); cs.push_back(c);
		string key; if(!m) { vector<uint32_t> ids; for(auto x:cs) ids.push_back(x->id); std::sort(ids.begin(),ids.end()); key.assign((char*)ids.data(),ids.size()*4); auto it=feasCache.find(key); if(it!=feasCache.end()) return (Res)it->second; }
		Res r; { set<int64_t> s; exprSyms(c,s); bool real=false; for(auto x:s) if(x<0) real=true; Model g;
			if(!tmo) tmo=real?600:10000; if(real&&!m&&guessModel(cs,g,150,3)) r=SAT; else r=solverCheck(cs,m,tmo); }
		if(!m) feasCache[key]=r; return r;
	}
	void addPC(const Expr* c) { if(c->k==E_CONST) { if(!c->cval) throw PathEnd{"infeasible"}; return; } if(pcset.insert(c).second) pc.push_back(c); }
	uint64_t decide(const vector<uint64_t>& opts) {
		uint64_t v; R.decisions++;
		if(dpos<prefix.size()) v=prefix[dpos++];
		else { if(opts.empty()) throw PathEnd{"infeasible"}; v=opts[0]; for(size_t i=opts.size();i-->1;) { auto p=taken; p.push_back(opts[i]); work.push_back(std::move(p)); } }
		taken.push_back(v); return v;
	}
	bool replaying() { return dpos<prefix.size(); }
	bool branch(const Expr* c) {   // c: width 1
		if(c->k==E_CONST) return c->cval;
		if(pcset.count(c)) return true; const Expr* n=eNot(c); if(pcset.count(n)) return false;
		R.branches++;
		uint64_t v;
		if(replaying()) v=decide({});
		else {
			Res a=feasible(c); Res b= a==UNSAT?SAT:feasible(n);
			if(a==UNSAT) { taken.push_back(0); addPC(n); return false; } if(b==UNSAT) { taken.push_back(1); addPC(c); return true; } // (recorded, so that a replay stays aligned)
			v=decide({1,0}); addPC(v?c:n); return v;
		}
		addPC(v?c:n); return v;
	}
	uint64_t concretize(Val v,unsigned w,int limit=4096) {
		if(!v.e) return v.c&maskw(w);
		if(v.e->k==E_CONST) return v.e->cval;
		if(v.e->k==E_UNDEF) violate("uninit","use of an uninitialised value");
		if(v.e->k==E_REAL) throw EngineError("concretize real bits");
		uint64_t val;
		// unique forced value is also recorded as a decision to keep replay aligned
		if(replaying()) val=decide({});
		else {
			vector<uint64_t> opts; const Expr* ex=eConst(1,1);
			while((int)opts.size()<limit) { Model m; Res r=feasible(ex,&m);
				if(opts.empty()&&ex->k==E_CONST) { vector<const Expr*> cs=slice(v.e); r=solverCheck(cs,&m,20000); }
				if(r==UNSAT) break; if(r==UNK) throw EngineError("solver gave up while enumerating an address");
				Evaluator ev(m); uint64_t x=ev.bv(v.e); opts.push_back(x);
				const Expr* ne=eNot(eBin(E_EQ,v.e,eConst(v.e->w,x))); ex=opts.size()==1?ne:eBin(E_AND,ex,ne); }
			std::sort(opts.begin(),opts.end()); val=decide(opts);
		}
		addPC(eBin(E_EQ,v.e,eConst(v.e->w,val))); return val;
	}
	// ---------------------------------------------------- memory
	uint64_t newObj(uint64_t size,OKind k,uint64_t align,bool zero,const char* fn="") {
		objs.emplace_back(); Obj& o=objs.back(); uint64_t id=objs.size()-1; o.size=size; o.kind=k; o.base=(id<<32)+(align<16?16:align); o.b.assign(size,0); o.s.assign(size,zero?1:0); o.owner=cur; o.region=regionSerial; o.allocfn=fn; return o.base;
	}
	Obj& access(uint64_t a,uint64_t n,bool wr,uint64_t& off) {
		uint64_t id=a>>32;
		if(id==0) { violate("memory",a==0||a<4096?"null pointer dereference":"wild pointer"); }
		if(id>=objs.size()) violate("memory","access to an invalid address");
		Obj& o=objs[id];
		if(!o.alive) violate("memory",o.kind==K_STACK?"use of a dead stack object":"use after free");
		if(o.kind==K_FUNC) violate("memory","data access to code");
		off=a-o.base;
		if(a<o.base||off+n>o.size) violate("memory",string(wr?"out-of-bounds write":"out-of-bounds read"));
		if(wr&&o.ro) violate("memory","write to read-only object");
		return o;
	}
	void race(uint64_t a,uint64_t n,bool wr,bool atomic,Obj& o) {
		Thread& t=th[cur]; if(teams[t.team].size<=1||raceOK||t.guard) return; // (initialising a function-local static is ordered before its uses)
		if(o.region==regionSerial&&o.owner==cur) return;
		if(o.kind==K_GLOBAL&&o.ro) return;
		for(uint64_t k=a;k<a+n;k++) {
			Acc& c=acc[k]; int L=t.logical;
			auto conflict=[&](int other,bool oc,bool oa){ return other!=-1&&other!=L&&!(oc&&t.crit)&&!(oa&&atomic); };
			if(conflict(c.w,c.wc,c.wa)||(wr&&(conflict(c.r,c.rc,c.ra)||(c.r2!=-1&&c.r2!=L&&!(c.ra&&atomic))))) violate("race",wr?"conflicting unordered accesses in a parallel region (write)":"conflicting unordered accesses in a parallel region (read)");
			if(wr) { c.w=L; c.wc=t.crit; c.wa=atomic; }
			else { if(c.r==-1||c.r==L) { if(c.r==-1) { c.rc=t.crit; c.ra=atomic; } else { c.rc=c.rc&&t.crit; c.ra=c.ra&&atomic; } c.r=L; } else { c.r2=L; c.rc=c.rc&&t.crit; c.ra=c.ra&&atomic; } }
		}
	}
	// splits bit-vector cells overlapping [off,off+n) into bytes; real cells must be inside or outside
	void unshare(Obj& o,uint64_t off,uint64_t n) {
		auto it=o.sym.upper_bound(off); if(it!=o.sym.begin()) { --it; }
		while(it!=o.sym.end()&&it->first<off+n) {
			uint64_t b=it->first,e=b+it->second.second; const Expr* x=it->second.first;
			if(e<=off) { ++it; continue; }
			if(b>=off&&e<=off+n) { ++it; continue; }
			it=o.sym.erase(it);
			if(x->k==E_REAL||x->k==E_AGG) {
				// partially overwritten / partially read real: the remaining bytes become unreadable
				for(uint64_t k=b;k<e;k++) o.s[k]=0; continue; }
			vector<std::pair<uint32_t,std::pair<const Expr*,uint8_t>>> add;
			for(uint64_t k=b;k<e;k++) { const Expr* p=eExtract(x,(k-b)*8,8); if(p->k==E_CONST) { o.b[k]=p->cval; o.s[k]=1; } else o.sym[k]={p,1}; }
			it=o.sym.upper_bound(off); if(it!=o.sym.begin()) --it;
		}
	}
	void clearSym(Obj& o,uint64_t off,uint64_t n) { if(o.sym.empty()) return; unshare(o,off,n); auto it=o.sym.lower_bound(off); while(it!=o.sym.end()&&it->first<off+n) it=o.sym.erase(it); }
	Val load(uint64_t a,unsigned n,bool isf,bool atomic=false) {
		uint64_t off; Obj& o=access(a,n,false,off); race(a,n,false,atomic,o);
		uint8_t mn=2,mx=0; for(unsigned i=0;i<n;i++) { uint8_t s=o.s[off+i]; mn=std::min(mn,s); mx=std::max(mx,s); }
		if(mn==1&&mx==1) { uint64_t v=0; memcpy(&v,&o.b[off],n); return Val{v,nullptr}; }
		if(mn==0) return Val{0,eUndef(n*8)};
		auto it=o.sym.find(off); if(it!=o.sym.end()&&it->second.second==n) return Val{0,it->second.first};
		{ auto jt=o.sym.upper_bound(off); if(jt!=o.sym.begin()) { --jt; if(jt->second.first->k==E_REAL&&jt->first+jt->second.second>off) throw EngineError("partial read of a symbolic real"); } }
		const Expr* r=nullptr;
		for(unsigned i=0;i<n;i++) {
			const Expr* by; if(o.s[off+i]==1) by=eConst(8,o.b[off+i]);
			else { auto jt=o.sym.upper_bound(off+i); --jt; if(jt->second.first->k==E_REAL) throw EngineError("partial read of a symbolic real"); by=eExtract(jt->second.first,(off+i-jt->first)*8,8); }
			r=r?eConcat(by,r):by;
		}
		if(r->k==E_CONST) return Val{r->cval,nullptr}; return Val{0,r};
	}
	void store(uint64_t a,unsigned n,Val v,bool atomic=false) {
		uint64_t off; Obj& o=access(a,n,true,off); race(a,n,true,atomic,o);
		if(fixedMode&&!th[cur].curLoop.empty()&&th[cur].curLoop.back().first>=fixedMode-1&&!(o.kind==K_STACK&&o.region==regionSerial&&o.owner==cur)&&!(o.kind==K_STACK&&th[cur].team==0)&&n==8&&!atomic) {
			// stores of the checked sweeps must not change the content
			Val old=load(a,n,true); if(isRealish(v)&&(!old.e||old.e->k==E_REAL||old.e->k==E_UNDEF)) { fixedChecks++; fixedStore=true; if(old.e&&old.e->k==E_UNDEF) violate("fixed","an asynchronous sweep stores to uninitialised memory"); assertEq(toPoly(old),toPoly(v),"value stored by an asynchronous sweep differs from the fixed point"); fixedStore=false; return; }
		}
		clearSym(o,off,n);
		if(!v.e) { memcpy(&o.b[off],&v.c,n); memset(&o.s[off],1,n); return; }
		if(v.e->k==E_CONST) { memcpy(&o.b[off],&v.e->cval,n); memset(&o.s[off],1,n); return; }
		if(v.e->k==E_UNDEF) { memset(&o.s[off],0,n); return; }
		const Expr* x=v.e; if(x->k!=E_REAL&&x->w<n*8) x=eCast(E_ZEXT,x,n*8);
		memset(&o.s[off],2,n); o.sym[off]={x,(uint8_t)n};
	}
	long fixedChecks=0; bool fixedStore=false; int pushedThreads=0; uint64_t errnoObj=0; std::unordered_map<uint64_t,uint64_t> excTIs;
	bool isRealish(Val v) { return !v.e||v.e->k==E_REAL; }
	void copyMem(uint64_t d,uint64_t s,uint64_t n) {
		if(!n) return; uint64_t so,dO; Obj& os=access(s,n,false,so); race(s,n,false,false,os); unshare(os,so,n);
		vector<uint8_t> b(os.b.begin()+so,os.b.begin()+so+n), st(os.s.begin()+so,os.s.begin()+so+n);
		vector<std::pair<uint32_t,std::pair<const Expr*,uint8_t>>> cells; for(auto it=os.sym.lower_bound(so);it!=os.sym.end()&&it->first<so+n;++it) cells.push_back({(uint32_t)(it->first-so),it->second});
		Obj& od=access(d,n,true,dO); race(d,n,true,false,od); clearSym(od,dO,n);
		memcpy(&od.b[dO],b.data(),n); memcpy(&od.s[dO],st.data(),n); for(auto&c:cells) od.sym[dO+c.first]=c.second;
	}
	void freeObj(uint64_t a,const char* what) {
		if(!a) return; uint64_t id=a>>32; if(id==0||id>=objs.size()) violate("memory","free of an invalid pointer"); Obj& o=objs[id];
		if(o.kind!=K_HEAP||a!=o.base) violate("memory","free of a pointer that was not allocated"); if(!o.alive) violate("memory","double free");
		string af=o.allocfn; if(af=="exc") return; if(af!=what) violate("memory","allocation and deallocation functions do not match ("+af+" / "+what+")");
		race(o.base,o.size,true,false,o);
		o.alive=false; o.b.clear(); o.b.shrink_to_fit(); o.s.clear(); o.sym.clear();
	}
	string cstr(uint64_t a) { string s; for(;;a++) { Val v=load(a,1,false); if(v.e||!(v.c&255)) break; s+=(char)v.c; if(s.size()>4000) break; } return s; }
	// ---------------------------------------------------- reals
	static double asD(uint64_t c) { double d; memcpy(&d,&c,8); return d; } static uint64_t asU(double d) { uint64_t c; memcpy(&c,&d,8); return c; }
	const Poly* toPoly(Val v) {
		if(v.e) { if(v.e->k==E_REAL) return v.e->p; if(v.e->k==E_UNDEF) violate("uninit","use of an uninitialised real value"); if(v.e->k==E_CONST) return pconst(Rat::fromDouble(asD(v.e->cval))); throw EngineError("integer bits used as a real"); }
		double d=asD(v.c); if(!std::isfinite(d)) violate("nonfinite","non-finite value in arithmetic"); return pconst(Rat::fromDouble(d));
	}
	Val fromPoly(const Poly* p) {
		if(p->isConst()) { Rat r=p->constVal(); double d=r.toDouble(); if(std::isfinite(d)&&Rat::fromDouble(d)==r) return Val{asU(d==0?0.0:d),nullptr}; }
		if(p->t.size()>nameThreshold*4) p=pnamed(p);
		return Val{0,eReal(p)};
	}
	void needNZ(const Poly* y) {
		if(y->isConst()) return; const Expr* z=eRcmp(0,y); if(z->k==E_CONST) { if(z->cval) violate("nonfinite","division by zero"); return; }
		const Expr* nz=eNot(z); if(pcset.count(nz)) return;
		if(strictDiv) { Res r=feasible(z); if(r==SAT) violate("nonfinite","division by a value that may be zero",z); if(r==UNK) { auto it=R.errors; R.uninc++; } }
		else { // a product of nonzero factors needs no new assumption
			if(y->t.size()==1) { bool all=true; for(auto&f:y->t[0].first->f) { const Expr* q=eNot(eRcmp(0,patom(f.first))); if(!pcset.count(q)) { all=false; R.assumedNZ++; addPC(q);} } (void)all; return; }
			R.assumedNZ++; }
		addPC(nz);
		// the named atom standing for y is nonzero as well
		if(y->t.size()>1) { const Poly* n=pnamed(y); const Poly* a1=patom(n->t[0].first->f[0].first); pcset.insert(eNot(eRcmp(0,a1))); pc.push_back(eNot(eRcmp(0,a1))); }
	}
	Val fop(Op op,Val a,Val b) {
		if((a.e&&a.e->k==E_UNDEF)||(b.e&&b.e->k==E_UNDEF)) return Val{0,eUndef(64)};
		if(!a.e&&!b.e) {
			double x=asD(a.c),y=asD(b.c),r; bool exact=false;
			switch(op) {
			case O_FADD: r=x+y; { double bb=r-x; double err=(x-(r-bb))+(y-bb); exact=err==0; } break;
			case O_FSUB: r=x-y; { double bb=r-x; double err=(x-(r-bb))+(-y-bb); exact=err==0; } break;
			case O_FMUL: r=x*y; exact=std::fma(x,y,-r)==0&&(r!=0||x==0||y==0); break;
			case O_FDIV: r=x/y; if(y==0) violate("nonfinite","division by zero"); exact=std::fma(r,y,-x)==0&&(r!=0||x==0); break;
			default: throw EngineError("frem");
			}
			if(!std::isfinite(x)||!std::isfinite(y)) return Val{asU(r),nullptr};
			if(exact&&std::isfinite(r)) return Val{asU(r==0?0.0:r),nullptr};
		}
		// infinities against symbolic values are outside the model
		const Poly* p=toPoly(a); const Poly* q=toPoly(b);
		switch(op) { case O_FADD: return fromPoly(padd(p,q)); case O_FSUB: return fromPoly(psub(p,q)); case O_FMUL: return fromPoly(pmul(p,q));
		case O_FDIV: if(q->isZero()) violate("nonfinite","division by zero"); needNZ(q); return fromPoly(pmul(p,pinv(q))); default: throw EngineError("frem"); }
	}
	Val fabsV(Val a) { if(!a.e) return Val{asU(std::fabs(asD(a.c))),nullptr}; if(a.e->k==E_UNDEF) return a; return fromPoly(pabs(toPoly(a))); }
	Val sqrtV(Val a) {
		if(a.e&&a.e->k==E_UNDEF) return a;
		if(!a.e) { double x=asD(a.c); if(x<0) violate("nonfinite","square root of a negative number"); double r=std::sqrt(x); if(std::fma(r,r,-x)==0) return Val{asU(r),nullptr}; }
		const Poly* p=toPoly(a); if(p->isConst()) { if(p->constVal().sgn()<0) violate("nonfinite","sqrt of negative"); return fromPoly(psqrt(p)); }
		const Expr* neg=eRcmp(1,p); const Expr* ok=eNot(neg);
		if(!pcset.count(ok)&&!(ok->k==E_CONST)) { if(strictDiv) { if(feasible(neg)==SAT) violate("nonfinite","square root of a value that may be negative",neg); } else R.assumedNZ++; addPC(ok); }
		// sqrt(v^2) = |v|
		if(p->t.size()==1) { bool sq=true; for(auto&f:p->t[0].first->f) if(f.second%2) sq=false;
			const Poly* c=psqrt(pconst(p->t[0].second)); if(sq&&c->isConst()&&p->t[0].second.sgn()>0) { const Poly* r=c; for(auto&f:p->t[0].first->f) { const Poly* b=patom(f.first); const Expr* n=eRcmp(1,b); bool isneg=branch(n); if(isneg) b=pneg(b); r=pmul(r,f.second>0?[&]{ const Poly* q=pconst(Rat(1)); for(int i=0;i<f.second/2;i++) q=pmul(q,b); return q; }():[&]{ const Poly* q=pconst(Rat(1)); for(int i=0;i<-f.second/2;i++) q=pmul(q,pinv(b)); return q; }()); } return fromPoly(r); } }
		return fromPoly(psqrt(p));
	}
	const Expr* fcmp(unsigned pred,Val a,Val b) {
		if(!a.e&&!b.e) { double x=asD(a.c),y=asD(b.c); bool u=std::isnan(x)||std::isnan(y); bool r=false;
			switch(pred) { case CmpInst::FCMP_FALSE: r=false; break; case CmpInst::FCMP_TRUE: r=true; break; case CmpInst::FCMP_ORD: r=!u; break; case CmpInst::FCMP_UNO: r=u; break;
			case CmpInst::FCMP_OEQ: r=x==y; break; case CmpInst::FCMP_UEQ: r=u||x==y; break; case CmpInst::FCMP_ONE: r=!u&&x!=y; break; case CmpInst::FCMP_UNE: r=x!=y; break;
			case CmpInst::FCMP_OLT: r=x<y; break; case CmpInst::FCMP_ULT: r=u||x<y; break; case CmpInst::FCMP_OLE: r=x<=y; break; case CmpInst::FCMP_ULE: r=u||x<=y; break;
			case CmpInst::FCMP_OGT: r=x>y; break; case CmpInst::FCMP_UGT: r=u||x>y; break; case CmpInst::FCMP_OGE: r=x>=y; break; case CmpInst::FCMP_UGE: r=u||x>=y; break; }
			return eConst(1,r); }
		if(pred==CmpInst::FCMP_ORD) return eConst(1,1); if(pred==CmpInst::FCMP_UNO) return eConst(1,0);
		// infinite constant against a symbolic (finite) real
		for(int k=0;k<2;k++) { Val c=k?b:a; if(!c.e&&std::isinf(asD(c.c))) { double x=k?0:asD(c.c), y=k?asD(c.c):0; return fcmp(pred,Val{asU(x),nullptr},Val{asU(y),nullptr}); } if(!c.e&&std::isnan(asD(c.c))) return eConst(1,pred>=8); }
		const Poly* d=psub(toPoly(a),toPoly(b));
		switch(pred&7) { case 1: return eRcmp(0,d); case 6: return eNot(eRcmp(0,d)); case 4: return eRcmp(1,d); case 5: return eRcmp(2,d); case 2: return eRcmp(1,pneg(d)); case 3: return eRcmp(2,pneg(d)); case 0: return eConst(1,0); case 7: return eConst(1,1); }
		throw EngineError("fcmp");
	}
	// ---------------------------------------------------- assertions
	void assertCond(const Expr* c,const string& msg) {
		R.asserts++;
		if(c->k==E_UNDEF) violate("uninit","assertion on an uninitialised value: "+msg);
		if(c->k==E_CONST) { R.assertsTrivial++; if(!c->cval) violate("assert",msg); return; }
		if(replaying()) { addPC(c); return; }   // already decided on the parent path
		const Expr* n=eNot(c); Res r=feasible(n,nullptr,20000);
		if(r==UNSAT) { addPC(c); return; }
		if(r==SAT) violate("assert",msg,n);
		R.uninc++; R.errors.push_back("inconclusive assertion: "+msg); addPC(c);
	}
	// merges absolute values of arguments that are rationally equal up to sign, and drops those of zero; null if nothing changes or the solver does not confirm it
	const Poly* mergeAbs(const Poly* e) {
		std::set<int> at; polyAtoms(e,at,false); vector<int> reps; std::map<int,int> sub; // atom -> representative, -1: zero
		static Model M; static size_t upto=0; for(;upto<atoms.size();upto++) M.reals[upto]=1.03+std::fmod(upto*0.6180339887,1.0)*2.9;
		auto same=[](const Poly* x,const Poly* y) { Evaluator ev(M); double a=ev.poly(x), b=ev.poly(y); if(!ev.bad&&std::fabs(a-b)>1e-5*(1+std::fabs(a)+std::fabs(b))&&std::fabs(a+b)>1e-5*(1+std::fabs(a)+std::fabs(b))) return false;
			const Poly* d=psub(x,y); const Poly* q=d->isZero()?d:pexpand(d,30000); return q&&q->isZero()&&(x==y||solverIdentity(x,y,1500)==UNSAT); };
		for(int a:at) if(atoms[a].kind==A_ABS) { const Poly* d=atoms[a].def; if(same(d,pconst(Rat(0)))) { sub[a]=-1; continue; } bool f=false; for(int b:reps) if(same(d,atoms[b].def)||same(d,pneg(atoms[b].def))) { sub[a]=b; f=true; break; } if(!f) reps.push_back(a); }
		if(sub.empty()) return nullptr;
		const Poly* r=pconst(Rat(0));
		for(auto&x:e->t) { const Poly* t=pconst(x.second); bool z=false; for(auto&f:x.first->f) { int a=f.first; auto it=sub.find(a); if(it!=sub.end()) { if(it->second<0) { if(f.second<0) return nullptr; z=true; break; } a=it->second; }
				t=pmul(t,patom(a,f.second)); } if(!z) r=padd(r,t); }
		return r;
	}
	void assertEq(const Poly* x,const Poly* y,const string& msg) {
		R.asserts++;
		if(x->isConst()&&y->isConst()) { R.assertsTrivial++; if(!(x->constVal()==y->constVal())) violate("assert",msg); return; }
		if(replaying()) return;
		static std::unordered_map<uint64_t,int> cache; uint64_t key=((uint64_t)x->id<<32)|y->id; auto it=cache.find(key); if(it!=cache.end()) return;
		if(x==y) { if(solverIdentity(x,y,2000)==UNSAT) { sstats.ident++; sstats.identZ3++; cache[key]=1; return; } }
		const Poly* d=psub(x,y);
		const Poly* e=d->isZero()?d:pexpand(d,30000);
		if(e&&e->isZero()) {
			sstats.ident++;
			Res r=solverIdentity(x,y,1500); if(r==UNSAT) sstats.identZ3++; else if(r==SAT) throw EngineError("normaliser and solver disagree on an identity");
			cache[key]=1; return;
		}
		if(e) if(const Poly* e2=mergeAbs(e)) { if(e2->isZero()) { sstats.ident++; sstats.identZ3++; cache[key]=1; return; } e=e2; }
		const Expr* ne=eNot(eRcmp(0,e?e:d));
		vector<const Expr*> cs=slice(ne); cs.push_back(ne); Model m;
		if(guessModel(cs,m,400,5)) { // confirm on the unexpanded difference
			violate("assert",msg,eNot(eRcmp(0,d))); }
		Res r=solverCheck(cs,&m,60000);
		if(r==UNSAT) { return; }
		if(r==SAT) violate("assert",msg,ne);
		R.uninc++; R.errors.push_back("inconclusive equality: "+msg+" diff="+pstr(d,6));
	}
	// ---------------------------------------------------- execution
	Val get(Thread& t,Frame& f,const Opnd& o) { return o.reg>=0?t.regs[f.rb+o.reg]:o.v; }
	void pushFrame(Thread& t,Function* F,const vector<Val>& args,DInst* call) {
		DFunc* d=getDF(F); if(t.fr.size()>2000) violate("memory","stack overflow (recursion)");
		Frame f; f.f=d; f.pc=0; f.rb=t.regs.size(); f.call=call; t.regs.resize(f.rb+d->nregs,Val{0,nullptr});
		for(int i=0;i<d->nargs&&i<(int)args.size();i++) t.regs[f.rb+i]=args[i];
		t.fr.push_back(std::move(f));
	}
	void popFrame(Thread& t) { Frame& f=t.fr.back(); for(auto id:f.allocas) { objs[id].alive=false; objs[id].b=vector<uint8_t>(); objs[id].s=vector<uint8_t>(); objs[id].sym.clear(); } t.regs.resize(f.rb); t.fr.pop_back(); }
	void takeEdge(Thread& t,Frame& f,Edge& e) {
		if(!e.moves.empty()) { if(e.moves.size()==1) t.regs[f.rb+e.moves[0].first]=get(t,f,e.moves[0].second);
			else { static vector<Val> tmp; tmp.clear(); for(auto&m:e.moves) tmp.push_back(get(t,f,m.second)); for(size_t i=0;i<tmp.size();i++) t.regs[f.rb+e.moves[i].first]=tmp[i]; } }
		f.pc=e.pc;
	}
	const Expr* bvOf(Val v,unsigned w) { return v.e?v.e:eConst(w,v.c); }
	static Val fromE(const Expr* e) { if(e->k==E_CONST) return Val{e->cval,nullptr}; return Val{0,e}; }
	bool undef(Val v) { return v.e&&v.e->k==E_UNDEF; }
	void throwExc(Thread& t,uint64_t obj,uint64_t ti);
	void run();
	void step(Thread& t);
	void doCall(Thread& t,DInst& d);
	void finishCall(Thread& t,DInst& d,Val r) { Frame& f=t.fr.back(); if(d.dst>=0) t.regs[f.rb+d.dst]=r; if(!d.e.empty()) takeEdge(t,f,d.e[0]); }
	bool derives(uint64_t ti,uint64_t base);
	Val loadTy(uint64_t a,Type* ty);
	void storeTy(uint64_t a,Type* ty,Val v);
	void schedule();
	bool maybePreempt(Thread& t);
	Val aggOf(const vector<Val>& v) { Agg* a=new Agg; a->k=E_AGG; a->w=0; a->id=0; a->cval=0; a->a[0]=a->a[1]=a->a[2]=nullptr; a->p=nullptr; a->name=nullptr; a->v=v; return Val{0,a}; }
};

// ============================================================ constants
static uint64_t newGlobalObj(uint64_t size,OKind k,const string& n,uint64_t align=16) { initObjs.emplace_back(); Obj& o=initObjs.back(); uint64_t id=initObjs.size()-1; o.size=size; o.kind=k; o.name=n; o.base=(id<<32)+(align<16?16:align); o.b.assign(size,0); o.s.assign(size,1); return o.base; }
static Val constVal(const Constant* c);
static uint64_t constAddr(const Constant* c) { Val v=constVal(c); if(v.e) throw EngineError("symbolic constant address"); return v.c; }
static Val constVal(const Constant* c) {
	if(auto* i=dyn_cast<ConstantInt>(c)) { if(i->getBitWidth()>64) return Val{i->getValue().trunc(64).getZExtValue(),nullptr}; return Val{i->getZExtValue(),nullptr}; }
	if(auto* f=dyn_cast<ConstantFP>(c)) { if(f->getType()->isDoubleTy()) return Val{Machine::asU(f->getValueAPF().convertToDouble()),nullptr}; if(f->getType()->isFloatTy()) return Val{Machine::asU((double)f->getValueAPF().convertToFloat()),nullptr}; return Val{0,nullptr}; }
	if(isa<ConstantPointerNull>(c)) return Val{0,nullptr};
	if(isa<UndefValue>(c)) { Type* t=c->getType(); if(t->isStructTy()||t->isArrayTy()) { Machine m; vector<Val> v; unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); for(unsigned i=0;i<n;i++) v.push_back(constVal(UndefValue::get(t->isStructTy()?t->getStructElementType(i):t->getArrayElementType()))); return m.aggOf(v); } return Val{0,eUndef(t->isIntegerTy()?std::min(64u,t->getIntegerBitWidth()):64)}; }
	if(auto* g=dyn_cast<GlobalValue>(c)) { if(auto* al=dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee()); auto it=gaddr.find(g); if(it==gaddr.end()) throw EngineError("unknown global "+g->getName().str()); return Val{it->second,nullptr}; }
	if(isa<ConstantAggregateZero>(c)||isa<ConstantStruct>(c)||isa<ConstantArray>(c)) { Machine m; vector<Val> v; unsigned n=c->getType()->isStructTy()?c->getType()->getStructNumElements():c->getType()->getArrayNumElements(); for(unsigned i=0;i<n;i++) v.push_back(constVal(c->getAggregateElement(i))); return m.aggOf(v); }
	if(auto* e=dyn_cast<ConstantExpr>(c)) {
		switch(e->getOpcode()) {
		case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(e)->accumulateConstantOffset(*DL,off)) throw EngineError("const gep"); return Val{constAddr(e->getOperand(0))+off.getSExtValue(),nullptr}; }
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0));
		case Instruction::Trunc: { Val v=constVal(e->getOperand(0)); v.c&=maskw(e->getType()->getIntegerBitWidth()); return v; }
		case Instruction::Add: return Val{constVal(e->getOperand(0)).c+constVal(e->getOperand(1)).c,nullptr};
		case Instruction::Sub: return Val{(constVal(e->getOperand(0)).c-constVal(e->getOperand(1)).c)&maskw(e->getType()->getIntegerBitWidth()),nullptr};
		case Instruction::ICmp: { uint64_t a=constVal(e->getOperand(0)).c,b=constVal(e->getOperand(1)).c; return Val{(uint64_t)(e->getPredicate()==CmpInst::ICMP_EQ?a==b:a!=b),nullptr}; }
		default: throw EngineError("constant expression "+string(e->getOpcodeName()));
		}
	}
	throw EngineError("constant kind");
}
static void initConst(Obj& o,uint64_t off,const Constant* c) {
	Type* t=c->getType(); if(isa<ConstantAggregateZero>(c)) return;
	if(isa<UndefValue>(c)) return;
	if(auto* ds=dyn_cast<ConstantDataSequential>(c)) { uint64_t es=DL->getTypeAllocSize(ds->getElementType()); for(unsigned i=0;i<ds->getNumElements();i++) { if(ds->getElementType()->isIntegerTy()) { uint64_t v=ds->getElementAsInteger(i); memcpy(&o.b[off+i*es],&v,es); } else if(ds->getElementType()->isDoubleTy()) { double v=ds->getElementAsDouble(i); memcpy(&o.b[off+i*es],&v,8); } else { float v=ds->getElementAsFloat(i); memcpy(&o.b[off+i*es],&v,4); } } return; }
	if(auto* st=dyn_cast<StructType>(t)) { auto* sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) initConst(o,off+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
	if(auto* at=dyn_cast<ArrayType>(t)) { uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) initConst(o,off+i*es,c->getAggregateElement(i)); return; }
	Val v=constVal(c); uint64_t n=DL->getTypeStoreSize(t); if(t->isFloatTy()) { float f=(float)Machine::asD(v.c); memcpy(&o.b[off],&f,4); return; } memcpy(&o.b[off],&v.c,std::min<uint64_t>(n,8));
}
static void initGlobals() {
	initObjs.emplace_back(); // id 0 = null
	initObjs.back().alive=false;
	for(auto& F:*M) { uint64_t a=newGlobalObj(1,K_FUNC,F.getName().str()); gaddr[&F]=a; faddr[a]=&F; initObjs.back().fn=&F; }
	for(auto& G:M->globals()) { uint64_t sz=G.isDeclaration()?std::max<uint64_t>(1024,DL->getTypeAllocSize(G.getValueType())):DL->getTypeAllocSize(G.getValueType()); uint64_t a=newGlobalObj(sz,G.isDeclaration()?K_EXT:K_GLOBAL,G.getName().str(),G.getAlign()?G.getAlign()->value():16); gaddr[&G]=a; }
	size_t id=1+M->size();
	for(auto& G:M->globals()) { Obj& o=initObjs[id++]; if(G.hasInitializer()) { initConst(o,0,G.getInitializer()); o.ro=G.isConstant(); } }
}

// ============================================================ decoding
static int builtinFor(Function* F);
static void decode(DFunc* d) {
	Function* F=d->F; map<const Value*,int> reg; map<BasicBlock*,int> bpc;
	for(auto& a:F->args()) reg[&a]=d->nregs++;
	d->nargs=d->nregs;
	for(auto& B:*F) for(auto& I:B) if(!I.getType()->isVoidTy()) reg[&I]=d->nregs++;
	auto opn=[&](const Value* v)->Opnd { Opnd o; if(auto* c=dyn_cast<Constant>(v)) { o.v=constVal(c); return o; } auto it=reg.find(v); if(it==reg.end()) { o.v=Val{0,nullptr}; return o; } o.reg=it->second; return o; };
	auto width=[&](Type* t)->unsigned { if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; };
	auto skip=[](Instruction& I) { if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) return true; auto* c=dyn_cast<CallInst>(&I); return c&&c->isInlineAsm()&&c->getType()->isVoidTy()&&c->arg_size()==0; /* a marker or compiler barrier */ };
	int pc=0; for(auto& B:*F) { bpc[&B]=pc; for(auto& I:B) if(!skip(I)) pc++; }
	auto edge=[&](BasicBlock* from,BasicBlock* to) { Edge e; e.pc=bpc[to]; for(auto& p:to->phis()) e.moves.push_back({reg[&p],opn(p.getIncomingValueForBlock(from))}); return e; };
	for(auto& B:*F) for(auto& I:B) {
		if(skip(I)) continue;
		DInst x; x.I=&I; x.op=O_UNSUP; if(!I.getType()->isVoidTy()) x.dst=reg[&I]; x.w=std::min(255u,width(I.getType())); x.ty=I.getType();
		auto ops=[&](){ for(auto& u:I.operands()) if(!isa<BasicBlock>(u)&&!isa<MetadataAsValue>(u)) x.o.push_back(opn(u)); };
		switch(I.getOpcode()) {
		case Instruction::Alloca: { auto& a=cast<AllocaInst>(I); x.op=O_ALLOCA; x.imm=DL->getTypeAllocSize(a.getAllocatedType()); x.w2=std::min<uint64_t>(128,a.getAlign().value()); x.o.push_back(opn(a.getArraySize())); break; }
		case Instruction::Load: { auto& l=cast<LoadInst>(I); x.op=O_LOAD; x.isf=I.getType()->isFloatingPointTy(); x.imm=DL->getTypeStoreSize(I.getType()); x.agg=I.getType()->isAggregateType(); x.atomic=l.isAtomic(); ops(); break; }
		case Instruction::Store: { auto& s=cast<StoreInst>(I); x.op=O_STORE; x.ty=s.getValueOperand()->getType(); x.isf=x.ty->isFloatingPointTy(); x.imm=DL->getTypeStoreSize(x.ty); x.agg=x.ty->isAggregateType(); x.atomic=s.isAtomic(); ops(); break; }
		case Instruction::GetElementPtr: { x.op=O_GEP; auto* g=cast<GEPOperator>(&I); x.o.push_back(opn(g->getPointerOperand())); int64_t off=0;
			for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi) { Value* v=gi.getOperand(); if(auto* st=gi.getStructTypeOrNull()) off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); else { int64_t sc=gi.getSequentialElementStride(*DL); if(auto* c=dyn_cast<ConstantInt>(v)) off+=c->getSExtValue()*sc; else x.gep.push_back({opn(v),{sc,(int)v->getType()->getIntegerBitWidth()}}); } }
			x.imm=(uint64_t)off; break; }
		case Instruction::Add: x.op=O_IBIN; x.sub=E_ADD; ops(); break; case Instruction::Sub: x.op=O_IBIN; x.sub=E_SUB; ops(); break; case Instruction::Mul: x.op=O_IBIN; x.sub=E_MUL; ops(); break;
		case Instruction::UDiv: x.op=O_IBIN; x.sub=E_UDIV; ops(); break; case Instruction::SDiv: x.op=O_IBIN; x.sub=E_SDIV; ops(); break; case Instruction::URem: x.op=O_IBIN; x.sub=E_UREM; ops(); break; case Instruction::SRem: x.op=O_IBIN; x.sub=E_SREM; ops(); break;
		case Instruction::And: x.op=O_IBIN; x.sub=E_AND; ops(); break; case Instruction::Or: x.op=O_IBIN; x.sub=E_OR; ops(); break; case Instruction::Xor: x.op=O_IBIN; x.sub=E_XOR; ops(); break;
		case Instruction::Shl: x.op=O_IBIN; x.sub=E_SHL; ops(); break; case Instruction::LShr: x.op=O_IBIN; x.sub=E_LSHR; ops(); break; case Instruction::AShr: x.op=O_IBIN; x.sub=E_ASHR; ops(); break;
		case Instruction::FAdd: x.op=O_FADD; ops(); break; case Instruction::FSub: x.op=O_FSUB; ops(); break; case Instruction::FMul: x.op=O_FMUL; ops(); break; case Instruction::FDiv: x.op=O_FDIV; ops(); break; case Instruction::FNeg: x.op=O_FNEG; ops(); break;
		case Instruction::ICmp: x.op=O_ICMP; x.sub=cast<ICmpInst>(I).getPredicate(); x.w2=width(I.getOperand(0)->getType()); ops(); break;
		case Instruction::FCmp: x.op=O_FCMP; x.sub=cast<FCmpInst>(I).getPredicate(); ops(); break;
		case Instruction::Trunc: x.op=O_TRUNC; x.w2=width(I.getOperand(0)->getType()); ops(); break;
		case Instruction::ZExt: x.op=O_ZEXT; x.w2=width(I.getOperand(0)->getType()); ops(); break;
		case Instruction::SExt: x.op=O_SEXT; x.w2=width(I.getOperand(0)->getType()); ops(); break;
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: x.op=O_BITCAST; x.w2=width(I.getOperand(0)->getType()); ops(); break;
		case Instruction::FPToSI: x.op=O_FPTOSI; ops(); break; case Instruction::FPToUI: x.op=O_FPTOUI; ops(); break;
		case Instruction::SIToFP: x.op=O_SITOFP; x.w2=width(I.getOperand(0)->getType()); ops(); break; case Instruction::UIToFP: x.op=O_UITOFP; x.w2=width(I.getOperand(0)->getType()); ops(); break;
		case Instruction::FPExt: x.op=O_FPEXT; ops(); break; case Instruction::FPTrunc: x.op=O_FPTRUNC; ops(); break;
		case Instruction::Select: x.op=O_SELECT; x.isf=I.getType()->isFloatingPointTy(); ops(); break;
		case Instruction::Freeze: x.op=O_FREEZE; ops(); break;
		case Instruction::Br: { auto& b=cast<BranchInst>(I); if(b.isConditional()) { x.op=O_CBR; x.o.push_back(opn(b.getCondition())); x.e.push_back(edge(&B,b.getSuccessor(0))); x.e.push_back(edge(&B,b.getSuccessor(1))); } else { x.op=O_BR; x.e.push_back(edge(&B,b.getSuccessor(0))); } break; }
		case Instruction::Switch: { auto& s=cast<SwitchInst>(I); x.op=O_SWITCH; x.w2=width(s.getCondition()->getType()); x.o.push_back(opn(s.getCondition())); x.e.push_back(edge(&B,s.getDefaultDest())); for(auto& c:s.cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.e.push_back(edge(&B,c.getCaseSuccessor())); } break; }
		case Instruction::Ret: x.op=O_RET; ops(); break;
		case Instruction::Call: case Instruction::Invoke: { auto& c=cast<CallBase>(I);
			x.op=O_CALL; x.callee=dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts());
			for(auto& a:c.args()) { if(isa<MetadataAsValue>(a)) x.o.push_back(Opnd()); else x.o.push_back(opn(a)); }
			if(!x.callee) { x.o.push_back(opn(c.getCalledOperand())); }
			else x.builtin=builtinFor(x.callee);
			if(auto* iv=dyn_cast<InvokeInst>(&I)) { x.e.push_back(edge(&B,iv->getNormalDest())); x.e.push_back(edge(&B,iv->getUnwindDest())); }
			break; }
		case Instruction::LandingPad: x.op=O_LANDINGPAD; break;
		case Instruction::Resume: x.op=O_RESUME; ops(); break;
		case Instruction::Unreachable: x.op=O_UNREACHABLE; break;
		case Instruction::InsertValue: x.op=O_INSERTV; for(unsigned i:cast<InsertValueInst>(I).indices()) x.idx.push_back(i); ops(); break;
		case Instruction::ExtractValue: x.op=O_EXTRACTV; for(unsigned i:cast<ExtractValueInst>(I).indices()) x.idx.push_back(i); ops(); break;
		case Instruction::AtomicRMW: x.op=O_RMW; x.sub=cast<AtomicRMWInst>(I).getOperation(); x.imm=DL->getTypeStoreSize(I.getType()); ops(); break;
		case Instruction::AtomicCmpXchg: x.op=O_CMPXCHG; x.ty=I.getOperand(1)->getType(); x.imm=DL->getTypeStoreSize(x.ty); ops(); break;
		case Instruction::Fence: x.op=O_NOP; break;
		default: break;
		}
		d->code.push_back(std::move(x));
	}
}
Val Machine::loadTy(uint64_t a,Type* ty) {
	if(auto* st=dyn_cast<StructType>(ty)) { vector<Val> v; auto* sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) v.push_back(loadTy(a+sl->getElementOffset(i),st->getElementType(i))); return aggOf(v); }
	if(auto* at=dyn_cast<ArrayType>(ty)) { vector<Val> v; uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) v.push_back(loadTy(a+i*es,at->getElementType())); return aggOf(v); }
	return load(a,DL->getTypeStoreSize(ty),ty->isFloatingPointTy());
}
void Machine::storeTy(uint64_t a,Type* ty,Val v) {
	if(auto* st=dyn_cast<StructType>(ty)) { auto* sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) storeTy(a+sl->getElementOffset(i),st->getElementType(i),((Agg*)v.e)->v[i]); return; }
	if(auto* at=dyn_cast<ArrayType>(ty)) { uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) storeTy(a+i*es,at->getElementType(),((Agg*)v.e)->v[i]); return; }
	store(a,DL->getTypeStoreSize(ty),v);
}
// ============================================================ exceptions
static string gname(uint64_t a) { uint64_t id=a>>32; return id<initObjs.size()?initObjs[id].name:string(); }
static const map<string,string> stdBases={{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"}};
static bool derivesName(string n,const string& b) { while(true) { if(n==b) return true; auto it=stdBases.find(n); if(it==stdBases.end()) return false; n=it->second; } }
bool Machine::derives(uint64_t ti,uint64_t base) {
	if(ti==base||base==0) return true; string n=gname(ti),b=gname(base); if(n==b) return true;
	if(initObjs[ti>>32].kind==K_EXT) return derivesName(n,b);
	// class type info: {vtable, name} | {vtable, name, base} (single inheritance) | vmi
	Obj& o=initObjs[ti>>32]; string vt; { uint64_t v; memcpy(&v,&o.b[0],8); vt=gname(v); }
	if(o.size==24) { uint64_t p; memcpy(&p,&o.b[16],8); return derives(p,base); }
	if(o.size>24&&vt.find("vmi")!=string::npos) { unsigned cnt; memcpy(&cnt,&o.b[20],4); for(unsigned i=0;i<cnt;i++) { uint64_t p; memcpy(&p,&o.b[24+16*i],8); if(derives(p,base)) return true; } }
	return derivesName(n,b);
}
void Machine::throwExc(Thread& t,uint64_t obj,uint64_t ti) {
	excObj=Val{obj,nullptr}; excTI=ti;
	while(true) {
		if(t.fr.size()==0) { violate("exception","uncaught exception of type "+demangle(gname(ti))); }
		Frame& f=t.fr.back(); DInst& d=f.f->code[f.pc];
		if(d.op==O_CALL&&d.e.size()==2) { takeEdge(t,f,d.e[1]); return; }
		popFrame(t);
		if(t.fr.empty()||(t.team>0&&t.fr.empty())) { violate("exception","uncaught exception of type "+demangle(gname(ti))); }
	}
}
// ============================================================ threads
void Machine::schedule() {
	// choose a runnable thread: lowest id first (within the innermost team)
	while(true) {
		for(size_t i=th.size();i-->0;) {}
		int pick=-1; for(size_t i=0;i<th.size();i++) if(th[i].st==T_RUN) { pick=i; break; }
		if(pick>=0) { cur=pick; return; }
		// everybody waits: release a barrier
		bool rel=false;
		for(size_t k=teams.size();k-->1;) { bool all=true,any=false; for(int m:teams[k].members) { if(th[m].st==T_BARRIER) any=true; else if(th[m].st!=T_DONE) all=false; } 
			if(any&&all) { bool done=false; for(int m:teams[k].members) if(th[m].st==T_DONE) done=true; if(done) violate("deadlock","some threads finished the region while others wait at a barrier"); for(int m:teams[k].members) th[m].st=T_RUN; teams[k].phase++; acc.clear(); rel=true; break; } }
		if(rel) continue;
		// join
		for(size_t k=teams.size();k-->1;) { bool all=true; for(int m:teams[k].members) if(th[m].st!=T_DONE) all=false; if(all&&!teams[k].members.empty()) { int p=teams[k].parent; for(int m:teams[k].members) { th[m].fr.clear(); } teams[k].members.clear(); teams[k].size=0; acc.clear(); regionSerial++; th[p].st=T_RUN; teams.resize(k); while((int)th.size()>p+1&&th.back().st==T_DONE) th.pop_back(); rel=true; break; } }
		if(!rel) throw EngineError("deadlock in scheduler");
	}
}
bool Machine::maybePreempt(Thread& t) {
	if(asyncBudget<=0||asyncUsed>=asyncBudget) return false;
	vector<int> others; for(int m:teams[t.team].members) if(m!=cur&&th[m].st==T_RUN) others.push_back(m);
	if(others.empty()) return false;
	vector<uint64_t> o{0}; for(size_t i=0;i<others.size();i++) o.push_back(i+1);
	uint64_t c=decide(o); if(!c) return false; asyncUsed++; cur=others[c-1]; return true;
}
static std::deque<int> sysq;
void Machine::run() {
	Thread main; main.id=0; main.team=0; main.tid=0; th.push_back(main); teams.push_back(Team{1,-1}); teams[0].members={0};
	// global constructors
	vector<Function*> todo; if(auto* g=M->getNamedGlobal("llvm.global_ctors")) if(g->hasInitializer()) if(auto* a=dyn_cast<ConstantArray>(g->getInitializer())) { vector<std::pair<uint64_t,Function*>> v; for(auto& o:a->operands()) { auto* s=cast<ConstantStruct>(o); if(auto* f=dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(),f}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&x:v) todo.push_back(x.second); }
	Function* E=M->getFunction(entry); if(!E) throw EngineError("no entry "+entry); todo.push_back(E);
	for(auto* f:todo) {
		cur=0; if(f==E) heapBase=objs.size();
		pushFrame(th[0],f,{},nullptr);
		while(true) {
			Thread& t=th[cur];
			if(t.st!=T_RUN) { schedule(); continue; }
			if(t.fr.empty()) { if(cur==0) break; t.st=T_DONE; schedule(); continue; }
			step(t);
		}
	}
}
void Machine::step(Thread& t) {
	Frame& f=t.fr.back(); DInst& d=f.f->code[f.pc]; ci=&d; d.done=true; if(++insts>instBudget) violate("nonterm","the code does not terminate within the step bound");
	if((insts&0xfffff)==0&&el()>timeLimit) { R.incomplete=true; throw PathEnd{"time"}; }
	auto g=[&](int i)->Val { return get(t,f,d.o[i]); };
	auto set=[&](Val v) { t.regs[f.rb+d.dst]=v; };
	switch(d.op) {
	case O_ALLOCA: { uint64_t n=concretize(g(0),64)*d.imm; uint64_t a=newObj(n,K_STACK,d.w2,false); f.allocas.push_back(a>>32); set(Val{a,nullptr}); f.pc++; break; }
	case O_LOAD: { uint64_t a=concretize(g(0),64);
		if(asyncOn&&teams[t.team].size>1) { Obj& o=objs[(a>>32)<objs.size()?a>>32:0]; if(o.kind==K_HEAP&&d.isf&&!(o.region==regionSerial&&o.owner==cur)&&!t.serial) { if(maybePreempt(t)) return; } }
		if(d.agg) { set(loadTy(a,d.ty)); f.pc++; break; }
		if(d.imm>8) throw EngineError("wide load"); if(d.isf&&d.imm==4) { Val v=load(a,4,true); if(v.e) throw EngineError("symbolic float"); float x; memcpy(&x,&v.c,4); set(Val{asU((double)x),nullptr}); f.pc++; break; }
		Val v=load(a,d.imm,d.isf,d.atomic); if(d.w<d.imm*8&&!d.isf) { if(!v.e) v.c&=maskw(d.w); else if(v.e->k==E_UNDEF) v=Val{0,eUndef(d.w)}; else if(v.e->k!=E_REAL) v=fromE(eExtract(v.e,0,d.w)); } set(v); f.pc++; break; }
	case O_STORE: { uint64_t a=concretize(g(1),64); Val v=g(0);
		if(asyncOn&&teams[t.team].size>1) { Obj& o=objs[(a>>32)<objs.size()?a>>32:0]; if(o.kind==K_HEAP&&d.isf&&!(o.region==regionSerial&&o.owner==cur)&&!t.serial) { if(maybePreempt(t)) return; } }
		if(d.agg) { storeTy(a,d.ty,v); f.pc++; break; } if(d.imm>8) throw EngineError("wide store"); if(d.isf&&d.imm==4) { if(v.e) throw EngineError("symbolic float"); float x=(float)asD(v.c); uint64_t c=0; memcpy(&c,&x,4); v.c=c; } store(a,d.imm,v,d.atomic); f.pc++; break; }
	case O_GEP: { Val b=g(0); bool sym=b.e!=nullptr; for(auto& x:d.gep) { Val v=get(t,f,x.first); if(v.e) sym=true; }
		if(!sym) { uint64_t r=b.c+d.imm; for(auto& x:d.gep) r+=(uint64_t)(sextw(get(t,f,x.first).c,x.second.second)*x.second.first); set(Val{r,nullptr}); }
		else { if(undef(b)) { set(Val{0,eUndef(64)}); f.pc++; break; } const Expr* r=eBin(E_ADD,bvOf(b,64),eConst(64,d.imm)); bool u=false; for(auto& x:d.gep) { Val v=get(t,f,x.first); if(undef(v)) { u=true; break; } const Expr* i=bvOf(v,x.second.second); if(x.second.second<64) i=eCast(E_SEXT,i,64); r=eBin(E_ADD,r,eBin(E_MUL,i,eConst(64,(uint64_t)x.second.first))); } set(u?Val{0,eUndef(64)}:fromE(r)); }
		f.pc++; break; }
	case O_IBIN: { Val a=g(0),b=g(1);
		if(!a.e&&!b.e) { bool ok; uint64_t r=foldBin((EK)d.sub,d.w,a.c&maskw(d.w),b.c&maskw(d.w),ok); if(!ok) violate("arith","undefined integer operation"); set(Val{r,nullptr}); f.pc++; break; }
		if(undef(a)||undef(b)) { set(Val{0,eUndef(d.w)}); f.pc++; break; }
		if(d.sub>=E_UDIV&&d.sub<=E_SREM) { const Expr* z=eBin(E_EQ,bvOf(b,d.w),eConst(d.w,0)); if(branch(z)) violate("arith","integer division by zero"); }
		if((a.e&&a.e->k==E_REAL)||(b.e&&b.e->k==E_REAL)) { // sign-bit manipulation of doubles
			Val r=a.e&&a.e->k==E_REAL?a:b, m=a.e&&a.e->k==E_REAL?b:a; if(!m.e&&d.sub==E_AND&&m.c==0x7fffffffffffffffull) { set(fabsV(r)); f.pc++; break; } if(!m.e&&d.sub==E_XOR&&m.c==0x8000000000000000ull) { set(fromPoly(pneg(toPoly(r)))); f.pc++; break; } throw EngineError("bit manipulation of a symbolic real"); }
		set(fromE(eBin((EK)d.sub,bvOf(a,d.w),bvOf(b,d.w)))); f.pc++; break; }
	case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: set(fop(d.op,g(0),g(1))); f.pc++; break;
	case O_FNEG: { Val a=g(0); if(!a.e) set(Val{asU(asD(a.c)==0?0.0:-asD(a.c)),nullptr}); else if(undef(a)) set(a); else set(fromPoly(pneg(toPoly(a)))); f.pc++; break; }
	case O_ICMP: { Val a=g(0),b=g(1); unsigned p=d.sub;
		if(undef(a)||undef(b)) { set(Val{0,eUndef(1)}); f.pc++; break; }
		if(!a.e&&!b.e) { uint64_t x=a.c&maskw(d.w2),y=b.c&maskw(d.w2); int64_t sx=sextw(x,d.w2),sy=sextw(y,d.w2); bool r=false; switch(p) { case CmpInst::ICMP_EQ: r=x==y; break; case CmpInst::ICMP_NE: r=x!=y; break; case CmpInst::ICMP_UGT: r=x>y; break; case CmpInst::ICMP_UGE: r=x>=y; break; case CmpInst::ICMP_ULT: r=x<y; break; case CmpInst::ICMP_ULE: r=x<=y; break; case CmpInst::ICMP_SGT: r=sx>sy; break; case CmpInst::ICMP_SGE: r=sx>=sy; break; case CmpInst::ICMP_SLT: r=sx<sy; break; case CmpInst::ICMP_SLE: r=sx<=sy; break; } set(Val{(uint64_t)r,nullptr}); }
		else { if((a.e&&a.e->k==E_REAL)||(b.e&&b.e->k==E_REAL)) { bool same=a.e==b.e; if(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE) { (void)same; const Expr* q=eRcmp(0,psub(toPoly(a),toPoly(b))); set(fromE(p==CmpInst::ICMP_EQ?q:eNot(q))); f.pc++; break; } throw EngineError("integer comparison of real bits"); }
			const Expr* x=bvOf(a,d.w2),*y=bvOf(b,d.w2); const Expr* r=nullptr; switch(p) { case CmpInst::ICMP_EQ: r=eBin(E_EQ,x,y); break; case CmpInst::ICMP_NE: r=eNot(eBin(E_EQ,x,y)); break; case CmpInst::ICMP_UGT: r=eBin(E_ULT,y,x); break; case CmpInst::ICMP_UGE: r=eBin(E_ULE,y,x); break; case CmpInst::ICMP_ULT: r=eBin(E_ULT,x,y); break; case CmpInst::ICMP_ULE: r=eBin(E_ULE,x,y); break; case CmpInst::ICMP_SGT: r=eBin(E_SLT,y,x); break; case CmpInst::ICMP_SGE: r=eBin(E_SLE,y,x); break; case CmpInst::ICMP_SLT: r=eBin(E_SLT,x,y); break; case CmpInst::ICMP_SLE: r=eBin(E_SLE,x,y); break; } set(fromE(r)); }
		f.pc++; break; }
	case O_FCMP: { Val a=g(0),b=g(1); if(undef(a)||undef(b)) { set(Val{0,eUndef(1)}); f.pc++; break; } set(fromE(fcmp(d.sub,a,b))); f.pc++; break; }
	case O_TRUNC: { Val a=g(0); if(!a.e) set(Val{a.c&maskw(d.w),nullptr}); else if(undef(a)) set(Val{0,eUndef(d.w)}); else set(fromE(eExtract(a.e,0,d.w))); f.pc++; break; }
	case O_ZEXT: { Val a=g(0); if(!a.e) set(Val{a.c&maskw(d.w2),nullptr}); else if(undef(a)) set(Val{0,eUndef(d.w)}); else set(fromE(eCast(E_ZEXT,a.e,d.w))); f.pc++; break; }
	case O_SEXT: { Val a=g(0); if(!a.e) set(Val{(uint64_t)sextw(a.c,d.w2)&maskw(d.w),nullptr}); else if(undef(a)) set(Val{0,eUndef(d.w)}); else set(fromE(eCast(E_SEXT,a.e,d.w))); f.pc++; break; }
	case O_BITCAST: { Val a=g(0); if(d.w&&d.w2&&d.w<d.w2) { if(!a.e) a.c&=maskw(d.w); else a=fromE(eExtract(a.e,0,d.w)); } else if(d.w>d.w2&&a.e&&!undef(a)) a=fromE(eCast(E_ZEXT,a.e,d.w)); set(a); f.pc++; break; }
	case O_FPEXT: case O_FPTRUNC: { Val a=g(0); if(d.op==O_FPTRUNC&&!a.e) a.c=asU((double)(float)asD(a.c)); else if(d.op==O_FPTRUNC) throw EngineError("symbolic fptrunc"); set(a); f.pc++; break; }
	case O_FPTOSI: case O_FPTOUI: { Val a=g(0); if(a.e) { if(a.e->k==E_REAL) { const Poly* p=a.e->p; if(p->isConst()) { mpq_class q=p->constVal().q(); mpz_class z; mpz_tdiv_q(z.get_mpz_t(),q.get_num().get_mpz_t(),q.get_den().get_mpz_t()); set(Val{(uint64_t)z.get_si()&maskw(d.w),nullptr}); f.pc++; break; }
				if(p->t.size()==1&&p->t[0].second.isOne()&&p->t[0].first->f.size()==1&&p->t[0].first->f[0].second==1&&atoms[p->t[0].first->f[0].first].kind==A_I2R) { const Expr* ie=atoms[p->t[0].first->f[0].first].iexpr; set(fromE(ie->w==d.w?ie:ie->w<d.w?eCast(E_SEXT,ie,d.w):eExtract(ie,0,d.w))); f.pc++; break; } }
			throw EngineError("conversion of a symbolic real to an integer"); } set(Val{(uint64_t)(int64_t)asD(a.c)&maskw(d.w),nullptr}); f.pc++; break; }
	case O_SITOFP: case O_UITOFP: { Val a=g(0); if(!a.e) set(Val{asU(d.op==O_SITOFP?(double)sextw(a.c,d.w2):(double)(a.c&maskw(d.w2))),nullptr}); else if(undef(a)) set(Val{0,eUndef(64)}); else { const Expr* x=a.e; if(d.op==O_UITOFP) x=eCast(E_ZEXT,x,std::min(64u,(unsigned)d.w2+1)); 
			if(x->k==E_ITE&&x->a[1]->k==E_CONST&&x->a[2]->k==E_CONST) { bool b=branch(x->a[0]); const Expr* c=x->a[b?1:2]; set(Val{asU((double)sextw(c->cval,c->w)),nullptr}); }
			else if(x->w==1||(x->k==E_ZEXT&&x->a[0]->w==1)) { const Expr* c=x->w==1?x:x->a[0]; set(Val{asU(branch(c)?1.0:0.0),nullptr}); }
			else set(Val{0,eReal(patom(i2rAtom(x)))}); } f.pc++; break; }
	case O_SELECT: { Val c=g(0),a=g(1),b=g(2); if(!c.e) { set(c.c&1?a:b); f.pc++; break; } if(undef(c)) violate("uninit","selection depends on an uninitialised value");
		if(!a.e&&!b.e&&a.c==b.c) { set(a); f.pc++; break; } if(a.e&&a.e==b.e) { set(a); f.pc++; break; }
		if(pcset.count(c.e)) { set(a); f.pc++; break; } if(pcset.count(eNot(c.e))) { set(b); f.pc++; break; }
		if(d.isf||(a.e&&(a.e->k==E_REAL||a.e->k==E_UNDEF||a.e->k==E_AGG))||(b.e&&(b.e->k==E_REAL||b.e->k==E_UNDEF||b.e->k==E_AGG))||d.w==64||d.w==0) set(branch(c.e)?a:b);
		else set(fromE(eIte(c.e,bvOf(a,d.w),bvOf(b,d.w)))); f.pc++; break; }
	case O_FREEZE: { Val a=g(0); if(undef(a)) a=Val{0,nullptr}; set(a); f.pc++; break; }
	case O_BR: takeEdge(t,f,d.e[0]); break;
	case O_CBR: { Val c=g(0); bool b; if(!c.e) b=c.c&1; else { if(undef(c)) violate("uninit","branch depends on an uninitialised value"); b=branch(c.e); } takeEdge(t,f,d.e[b?0:1]); break; }
	case O_SWITCH: { Val c=g(0); if(undef(c)) violate("uninit","switch depends on an uninitialised value"); uint64_t v=concretize(c,d.w2); size_t k=0; for(size_t i=0;i<d.cases.size();i++) if(d.cases[i]==v) { k=i+1; break; } takeEdge(t,f,d.e[k]); break; }
	case O_RET: { Val v{0,nullptr}; bool has=!d.o.empty(); if(has) v=g(0); DInst* call=f.call; popFrame(t);
		if(!t.fr.empty()&&call) { Frame& pf=t.fr.back(); if(call->dst>=0&&has) t.regs[pf.rb+call->dst]=v; if(!call->e.empty()) takeEdge(t,pf,call->e[0]); else pf.pc++; }
		break; }
	case O_CALL: doCall(t,d); break;
	case O_LANDINGPAD: { auto* lp=cast<LandingPadInst>(d.I); uint64_t sel=0; for(unsigned i=0;i<lp->getNumClauses();i++) { if(lp->isCatch(i)) { uint64_t ti=constAddr(lp->getClause(i)); if(ti==0||derives(excTI,ti)) { sel=ti?ti>>32:0x7fffffff; break; } } }
		set(aggOf({excObj,Val{sel,nullptr}})); f.pc++; break; }
	case O_RESUME: { Val a=g(0); Agg* ag=(Agg*)a.e; popFrame(t); throwExc(t,ag->v[0].c,excTI); break; }
	case O_UNREACHABLE: violate("unreachable","control reached unreachable code"); break;
	case O_INSERTV: { Val a=g(0),b=g(1); std::function<Val(Val,size_t)> ins=[&](Val x,size_t k)->Val { Agg* ag=(Agg*)x.e; vector<Val> v=ag->v; v[d.idx[k]]=k+1==d.idx.size()?b:ins(v[d.idx[k]],k+1); return aggOf(v); }; set(ins(a,0)); f.pc++; break; }
	case O_EXTRACTV: { Val a=g(0); for(unsigned i:d.idx) a=((Agg*)a.e)->v[i]; set(a); f.pc++; break; }
	case O_RMW: { uint64_t a=concretize(g(0),64); Val o=load(a,d.imm,false,true), v=g(1), r; 
		switch(d.sub) { case AtomicRMWInst::Xchg: r=v; break; case AtomicRMWInst::Add: r=fromE(eBin(E_ADD,bvOf(o,d.w),bvOf(v,d.w))); break; case AtomicRMWInst::Sub: r=fromE(eBin(E_SUB,bvOf(o,d.w),bvOf(v,d.w))); break; case AtomicRMWInst::And: r=fromE(eBin(E_AND,bvOf(o,d.w),bvOf(v,d.w))); break; case AtomicRMWInst::Or: r=fromE(eBin(E_OR,bvOf(o,d.w),bvOf(v,d.w))); break; case AtomicRMWInst::FAdd: r=fop(O_FADD,o,v); break; case AtomicRMWInst::FSub: r=fop(O_FSUB,o,v); break; default: throw EngineError("atomicrmw"); }
		store(a,d.imm,r,true); set(o); f.pc++; break; }
	case O_CMPXCHG: { uint64_t a=concretize(g(0),64); Val o=load(a,d.imm,false,true), e=g(1), n=g(2); bool eq; if(undef(o)||undef(e)) violate("uninit","compare-exchange on uninitialised value");
		if(!o.e&&!e.e) eq=o.c==e.c; else if((o.e&&o.e->k==E_REAL)||(e.e&&e.e->k==E_REAL)) eq=branch(eRcmp(0,psub(toPoly(o),toPoly(e)))); else eq=branch(eBin(E_EQ,bvOf(o,d.imm*8),bvOf(e,d.imm*8)));
		if(eq) store(a,d.imm,n,true); set(aggOf({o,Val{(uint64_t)eq,nullptr}})); f.pc++; break; }
	case O_NOP: f.pc++; break;
	case O_UNSUP: { string s; raw_string_ostream os(s); d.I->print(os); throw EngineError("unsupported instruction "+s); }
	}
}
#include "builtins.inc"
void Machine::doCall(Thread& t,DInst& d) {
	Frame& f=t.fr.back(); vector<Val> args; args.reserve(d.o.size()); Function* F=d.callee; int bi=d.builtin;
	for(auto& o:d.o) args.push_back(get(t,f,o));
	if(!F) { uint64_t a=concretize(args.back(),64); args.pop_back(); auto it=faddr.find(a); if(it==faddr.end()) violate("memory","call through an invalid pointer"); F=it->second; bi=builtinFor(F); }
	if(bi>=0) {
		size_t depth=t.fr.size(); int me=cur; int pcb=f.pc;
		Val r=bfns[bi](*this,t,d,args);
		if(unwinding) { unwinding=false; return; }
		// builtins that switch threads have advanced the pc themselves
		Thread& t2=th[me]; (void)depth;
		if(t2.fr.empty()) return; Frame& f2=t2.fr.back(); if(f2.pc!=pcb||t2.fr.size()!=depth) return;
		if(d.dst>=0) t2.regs[f2.rb+d.dst]=r; if(!d.e.empty()) takeEdge(t2,f2,d.e[0]); else f2.pc++;
		return;
	}
	if(F->isDeclaration()) throw EngineError("unsupported external function "+F->getName().str()+" ("+demangle(F->getName().str())+") at "+locOf(d.I));
	pushFrame(t,F,args,&d);
}
// ============================================================ driver
static void runPath(const vector<uint64_t>& prefix) {
	Machine m; m.objs=initObjs; m.prefix=prefix; m.nthreads=cfg.count("threads")?cfg["threads"]:1; m.heapBase=0;
	if(cfg.count("strictdiv")) m.strictDiv=cfg["strictdiv"];
	R.paths++;
	try {
		m.run(); R.completed++; for(auto&c:m.covered) R.cover[c]++;
		if((int)R.samples.size()<samplesMax||R.witness==0) {
			Model md; if(m.fullModel(m.pc,md,10000)) { R.witness++; Evaluator ev(md); std::ostringstream o; o<<"{\"model\":"<<m.modelJson(md)<<",\"out\":["; bool fst=true;
				for(auto& x:m.outs) { char buf[64]; double v; bool isint=false; if(x.second.e) { if(x.second.e->k==E_REAL) v=ev.poly(x.second.e->p); else { v=(double)sextw(ev.bv(x.second.e),x.second.e->w); isint=true; } } else v=x.first=="i"?(double)sextw(x.second.c,32):Machine::asD(x.second.c); (void)isint; snprintf(buf,64,"%.17g",v); o<<(fst?"":",")<<buf; fst=false; }
				o<<"]}"; if((int)R.samples.size()<samplesMax&&!ev.bad) R.samples.push_back(o.str()); }
		}
	} catch(PathEnd& e) { if(e.why=="infeasible"||e.why=="assume") R.pruned++; else if(e.why=="abort") { R.completed++; R.cover["aborted"]++; } }
	catch(EngineError& e) { string s=string("engine: ")+e.what()+" at "+m.stackLoc(); if(R.errors.size()<20) R.errors.push_back(s); }
	R.insts+=m.insts; totalInst+=m.insts;
}
static void writeResult(const string& fn) {
	std::ofstream o(fn);
	o<<"{\"paths\":"<<R.paths<<",\"completed\":"<<R.completed<<",\"pruned\":"<<R.pruned<<",\"insts\":"<<R.insts<<",\"branches\":"<<R.branches<<",\"decisions\":"<<R.decisions<<",\"asserts\":"<<R.asserts<<",\"asserts_trivial\":"<<R.assertsTrivial<<",\"assumed_nonzero\":"<<R.assumedNZ<<",\"inconclusive\":"<<R.uninc<<",\"incomplete\":"<<(R.incomplete?"true":"false")<<",\"witness\":"<<R.witness;
	o<<",\"queries\":"<<sstats.queries<<",\"unsat\":"<<sstats.unsat<<",\"sat\":"<<sstats.sat<<",\"unk\":"<<sstats.unk<<",\"identities\":"<<sstats.ident<<",\"identities_z3\":"<<sstats.identZ3<<",\"guessed\":"<<sstats.guessed<<",\"solver_secs\":"<<sstats.secs<<",\"secs\":"<<el();
	o<<",\"cover\":{"; bool f=true; for(auto&c:R.cover) { o<<(f?"":",")<<"\""<<jesc(c.first)<<"\":"<<c.second; f=false; } o<<"}";
	o<<",\"violations\":["; f=true; for(auto&v:R.violJson) { o<<(f?"":",")<<v; f=false; } o<<"]";
	o<<",\"samples\":["; f=true; for(auto&v:R.samples) { o<<(f?"":",")<<v; f=false; } o<<"]";
	o<<",\"errors\":["; f=true; for(auto&v:R.errors) { o<<(f?"":",")<<"\""<<jesc(v)<<"\""; f=false; } o<<"]";
	set<string> fns; set<string> lines;
	for(auto& x:dfuncs) for(auto& i:x.second->code) if(i.done) if(auto& dl=i.I->getDebugLoc()) { auto* L=dl.get(); while(L) { string fn=L->getFilename().str(); if(fn.find("/repo/")!=string::npos||L->getDirectory().str().find("/repo")==0) { if(auto* sp=L->getScope()->getSubprogram()) { string nm=sp->getLinkageName().str(); nm=nm.empty()?sp->getName().str():demangle(nm); fns.insert(nm); } size_t p=fn.find("/repo/"); lines.insert((p==string::npos?fn:fn.substr(p+6))+":"+std::to_string(L->getLine())); } L=L->getInlinedAt(); } }
	o<<",\"functions\":["; f=true; for(auto&v:fns) { o<<(f?"":",")<<"\""<<jesc(v)<<"\""; f=false; } o<<"],\"lines\":["; f=true; for(auto&v:lines) { o<<(f?"":",")<<"\""<<jesc(v)<<"\""; f=false; } o<<"]}\n";
}
int main(int argc,char** argv) {
	t0=std::chrono::steady_clock::now(); string bc,out="-"; 
	for(int i=1;i<argc;i++) { string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
		if(a=="--entry") entry=nx(); else if(a=="--out") out=nx(); else if(a=="--cfg") { string s=nx(); size_t p=s.find('='); cfg[s.substr(0,p)]=atoi(s.substr(p+1).c_str()); }
		else if(a=="--time") timeLimit=atof(nx().c_str()); else if(a=="--procs") nproc=atoi(nx().c_str()); else if(a=="--budget") instBudget=atol(nx().c_str()); else if(a=="--samples") samplesMax=atoi(nx().c_str()); else if(a=="--name-threshold") nameThreshold=atoi(nx().c_str());
		else bc=a; }
	LLVMContext ctx; CTX=&ctx; SMDiagnostic err; auto mod=parseIRFile(bc,err,ctx); if(!mod) { err.print("symex",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout();
	registerBuiltins(); 
	try { initGlobals(); } catch(EngineError& e) { std::cerr<<"engine: "<<e.what()<<"\n"; return 3; }
	solverInit();
	work.push_back({});
	// breadth-first until there is enough to distribute
	size_t want=nproc>1?nproc*8:SIZE_MAX; size_t target=want;
	while(!work.empty()&&work.size()<target) { if(el()>timeLimit) { R.incomplete=true; break; } vector<uint64_t> p=work.front(); work.erase(work.begin()); runPath(p); if(nproc<=1) {} if(R.violJson.size()>=25) { work.clear(); break; } }
	if(!work.empty()&&!R.incomplete&&nproc>1) {
		auto* ctr=(std::atomic<int>*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); ctr->store(0); vector<vector<uint64_t>> jobs=work; vector<pid_t> kids; 
		std::mt19937 rng(12345); std::shuffle(jobs.begin(),jobs.end(),rng);
		writeResult(out+".0");
		for(int k=0;k<nproc;k++) { pid_t p=fork(); if(p==0) {
			R=Result(); sstats=SolverStats(); solverInit(); feasCache.clear();
			while(true) { int j=ctr->fetch_add(1); if(j>=(int)jobs.size()) break; work.clear(); work.push_back(jobs[j]);
				while(!work.empty()) { if(el()>timeLimit) { R.incomplete=true; break; } vector<uint64_t> q=std::move(work.back()); work.pop_back(); runPath(q); if(R.violJson.size()>=25) { work.clear(); ctr->store(1<<30); } }
				if(R.incomplete) break; }
			writeResult(out+"."+std::to_string(k+1)); _exit(0); } kids.push_back(p); }
		bool bad=false; for(auto p:kids) { int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) bad=true; }
		return bad?4:0;
	}
	if(!work.empty()) R.incomplete=true;
	writeResult(out+".0");
	return 0;
}
