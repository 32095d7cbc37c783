#include <functional>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>
#include <string.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include "solver.hpp"
#include <z3++.h>
#include <chrono>
#include <random>
#include <algorithm>
#include <functional>
#include <cmath>
SolverStats sstats;
static z3::context* C=nullptr;
static std::unordered_map<uint32_t,z3::expr>* ecache; static std::unordered_map<int,z3::expr>* acache; static std::unordered_map<int,z3::expr>* icache; static std::unordered_map<uint32_t,z3::expr>* pcache;
void solverInit() { C=new z3::context; ecache=new std::unordered_map<uint32_t,z3::expr>; acache=new std::unordered_map<int,z3::expr>; icache=new std::unordered_map<int,z3::expr>; pcache=new std::unordered_map<uint32_t,z3::expr>; }
static z3::expr tr(const Expr*e);
static z3::expr atomV(int a) { auto it=acache->find(a); if(it!=acache->end()) return it->second; z3::expr x=C->real_const(("r"+std::to_string(a)).c_str()); acache->emplace(a,x); return x; }
static z3::expr atomInv(int a) { auto it=icache->find(a); if(it!=icache->end()) return it->second; z3::expr x=C->real_const(("ir"+std::to_string(a)).c_str()); icache->emplace(a,x); return x; }
static z3::expr ratV(const Rat&r) { return C->real_val(r.str().c_str()); }
static z3::expr trPoly(const Poly*p) {
	auto it=pcache->find(p->id); if(it!=pcache->end()) return it->second;
	z3::expr_vector ts(*C);
	for(auto&x:p->t) {
		z3::expr_vector fs(*C); if(!x.second.isOne()||x.first->f.empty()) fs.push_back(ratV(x.second));
		for(auto&f:x.first->f) for(int i=0;i<std::abs(f.second);i++) fs.push_back(f.second>0?atomV(f.first):atomInv(f.first));
		if(fs.size()==1) ts.push_back(fs[0]); else { std::vector<Z3_ast> v; for(unsigned i=0;i<fs.size();i++) v.push_back(fs[i]); ts.push_back(z3::expr(*C,Z3_mk_mul(*C,v.size(),v.data()))); }
	}
	z3::expr r = ts.size()==0 ? C->real_val(0) : ts.size()==1 ? ts[0] : z3::sum(ts);
	pcache->emplace(p->id,r); return r;
}
static z3::expr boolOf(const z3::expr&e) { return e; }
// width-1 expressions are translated to Bool
static z3::expr asBV(const Expr*e) { z3::expr t=tr(e); if(e->w==1) return z3::ite(t,C->bv_val(1,1),C->bv_val(0,1)); return t; }
static z3::expr tr(const Expr*e) {
	auto it=ecache->find(e->id); if(it!=ecache->end()) return it->second;
	std::function<z3::expr()> mk=[&]()->z3::expr {
		switch(e->k) {
		case E_CONST: return e->w==1?C->bool_val(e->cval!=0):C->bv_val((uint64_t)e->cval,e->w);
		case E_VAR: { std::string n="i"+std::to_string(e->id); return e->w==1?C->bool_const(n.c_str()):C->bv_const(n.c_str(),e->w); }
		case E_RCMP: { z3::expr p=trPoly(e->p),z=C->real_val(0); return e->cval==0?p==z:e->cval==1?p<z:p<=z; }
		case E_ITE: return z3::ite(tr(e->a[0]),tr(e->a[1]),tr(e->a[2]));
		case E_ZEXT: return z3::zext(asBV(e->a[0]),e->w-e->a[0]->w);
		case E_SEXT: return z3::sext(asBV(e->a[0]),e->w-e->a[0]->w);
		case E_EXTRACT: { z3::expr x=asBV(e->a[0]).extract(e->cval+e->w-1,e->cval); return e->w==1?x==C->bv_val(1,1):x; }
		case E_CONCAT: return z3::concat(asBV(e->a[0]),asBV(e->a[1]));
		default: break;
		}
		if(e->a[0]->w==1) {
			z3::expr a=tr(e->a[0]),b=tr(e->a[1]);
			switch(e->k) { case E_AND: return a&&b; case E_OR: return a||b; case E_XOR: case E_ADD: case E_SUB: return a!=b; case E_EQ: return a==b; case E_ULT: return !a&&b; case E_ULE: return !a||b; case E_SLT: return a&&!b; case E_SLE: return a||!b; case E_MUL: return a&&b; default: throw EngineError("1-bit op"); }
		}
		z3::expr a=tr(e->a[0]),b=tr(e->a[1]);
		switch(e->k) {
		case E_ADD: return a+b; case E_SUB: return a-b; case E_MUL: return a*b; case E_UDIV: return z3::udiv(a,b); case E_SDIV: return a/b; case E_UREM: return z3::urem(a,b); case E_SREM: return z3::srem(a,b);
		case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b; case E_SHL: return z3::shl(a,b); case E_LSHR: return z3::lshr(a,b); case E_ASHR: return z3::ashr(a,b);
		case E_EQ: return a==b; case E_ULT: return z3::ult(a,b); case E_ULE: return z3::ule(a,b); case E_SLT: return a<b; case E_SLE: return a<=b;
		default: throw EngineError("cannot translate expression kind "+std::to_string(e->k));
		}
	};
	z3::expr r=mk(); ecache->emplace(e->id,r); return r;
}
static void collect(const Expr*e,std::set<const Expr*>& ivars,std::set<int>& at,std::set<uint32_t>& seen) {
	if(!seen.insert(e->id).second) return;
	if(e->k==E_VAR) ivars.insert(e);
	if(e->p) { std::set<int> as; polyAtoms(e->p,as,true); for(int a:as) { at.insert(a); if(atoms[a].iexpr) collect(atoms[a].iexpr,ivars,at,seen); } }
	for(int i=0;i<3;i++) if(e->a[i]) collect(e->a[i],ivars,at,seen);
}
struct Timer { std::chrono::steady_clock::time_point t=std::chrono::steady_clock::now(); ~Timer(){ sstats.secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t).count(); } };
static double ratOf(const z3::expr& v, mpq_class* q) {
	if(v.is_numeral()) { std::string s=Z3_get_numeral_string(v.ctx(),v); mpq_class x(s); x.canonicalize(); if(q) *q=x; return x.get_d(); }
	if(v.is_algebraic()) { std::string s=Z3_get_numeral_decimal_string(v.ctx(),v,20); if(!s.empty()&&s.back()=='?') s.pop_back(); return atof(s.c_str()); }
	return 1.0;
}
static void side(const std::set<int>& at, const std::vector<const Expr*>& cs, std::vector<z3::expr>& out) {
	// which atoms are inverted?
	for(int a:at) {
		const Atom& A=atoms[a];
		if(A.kind==A_NAMED) out.push_back(atomV(a)==trPoly(A.def));
		if(A.kind==A_SQRT) { out.push_back(atomV(a)*atomV(a)==trPoly(A.def)); out.push_back(atomV(a)>=0); }
		if(A.kind==A_ABS) { z3::expr d=trPoly(A.def); out.push_back(atomV(a)==z3::ite(d>=0,d,-d)); }
		if(A.kind==A_I2R) { z3::expr bv=tr(A.iexpr); out.push_back(atomV(a)==z3::to_real(z3::expr(*C,Z3_mk_bv2int(*C,bv,true)))); }
	}
}
static void invAtoms(const Poly*p,std::set<int>&out,std::set<uint32_t>&seen) { if(!seen.insert(p->id).second) return; for(auto&x:p->t) for(auto&f:x.first->f) { if(f.second<0) out.insert(f.first); if(atoms[f.first].def) invAtoms(atoms[f.first].def,out,seen); } }
static void invIn(const Expr*e,std::set<int>&out,std::set<uint32_t>&ps,std::set<uint32_t>&es) { if(!es.insert(e->id).second) return; if(e->p) invAtoms(e->p,out,ps); for(int i=0;i<3;i++) if(e->a[i]) invIn(e->a[i],out,ps,es); }

// runs a query in a child process; its verdict and model come back through a pipe
static Res forked(const std::function<Res()>& f,Model* m,unsigned ms) {
	int fd[2]; if(pipe(fd)) return f();
	fflush(stdout); fflush(stderr); pid_t pid=fork();
	if(pid<0) { close(fd[0]); close(fd[1]); return f(); }
	if(pid==0) {
		prctl(PR_SET_PDEATHSIG,SIGKILL); close(fd[0]); if(m) { m->ints.clear(); m->reals.clear(); } Res r=UNK; try { r=f(); } catch(...) {}
		std::string o; auto w=[&](uint64_t x) { o.append((char*)&x,8); }; w((uint64_t)r);
		if(m&&r==SAT) { w(m->ints.size()); for(auto&x:m->ints) { w(x.first); w(x.second); } w(m->reals.size()); for(auto&x:m->reals) { uint64_t d; memcpy(&d,&x.second,8); w(x.first); w(d); } } else { w(0); w(0); }
		size_t k=0; while(k<o.size()) { ssize_t n=write(fd[1],o.data()+k,o.size()-k); if(n<=0) break; k+=n; } _exit(0);
	}
	close(fd[1]); std::string in; auto t0=std::chrono::steady_clock::now(); bool eof=false;
	while(!eof) { long left=(long)ms-(long)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now()-t0).count(); if(left<=0) break; pollfd p{fd[0],POLLIN,0}; int k=poll(&p,1,(int)left); if(k<0&&errno==EINTR) continue; if(k<=0) break; char buf[65536]; ssize_t n=read(fd[0],buf,sizeof buf); if(n<=0) eof=true; else in.append(buf,n); }
	close(fd[0]); kill(pid,SIGKILL); int st; while(waitpid(pid,&st,0)<0&&errno==EINTR) {}
	if(!eof||in.size()<24) return UNK;
	size_t k=0; auto g=[&]() { uint64_t x=0; if(k+8<=in.size()) memcpy(&x,in.data()+k,8); k+=8; return x; }; Res r=(Res)g();
	if(m&&r==SAT) { uint64_t n=g(); while(n--) { uint64_t a=g(); m->ints[a]=g(); } n=g(); while(n--) { uint64_t a=g(),d=g(); double v; memcpy(&v,&d,8); m->reals[a]=v; } }
	return r;
}
Res solverCheck(const std::vector<const Expr*>& cs, Model* m, unsigned timeoutMs) {
	Timer T; sstats.queries++;
	for(auto c:cs) if(c->k==E_CONST&&!c->cval) { sstats.unsat++; return UNSAT; }
	std::set<const Expr*> iv; std::set<int> at; std::set<uint32_t> seen;
	for(auto c:cs) collect(c,iv,at,seen);
	std::vector<z3::expr> fs;
	for(auto c:cs) fs.push_back(tr(c));
	side(at,cs,fs);
	std::set<int> inv; { std::set<uint32_t> a,b; for(auto c:cs) invIn(c,inv,a,b); }
	for(int a:inv) fs.push_back(atomV(a)*atomInv(a)==C->real_val(1));
	for(auto v:iv) if(v->w>1) { fs.push_back(tr(v)>=C->bv_val((int64_t)v->lo,v->w)); fs.push_back(tr(v)<=C->bv_val((int64_t)v->hi,v->w)); }
	bool reals=!at.empty(); if(reals) sstats.nlq++;
	auto run=[&](z3::solver s,unsigned tmo)->Res {
		try {
			z3::params p(*C); p.set("timeout",tmo); s.set(p);
			for(auto&f:fs) s.add(f);
			auto r=s.check();
			if(r==z3::unsat) return UNSAT;
			if(r==z3::unknown) return UNK;
			if(m) { z3::model md=s.get_model();
				for(auto v:iv) { z3::expr x=md.eval(tr(v),true); if(v->w==1) m->ints[v->id]=x.is_true(); else { uint64_t u=0; std::string str=Z3_get_numeral_string(*C,x); u=strtoull(str.c_str(),nullptr,10); m->ints[v->id]=u; } }
				for(int a:at) if(atoms[a].kind==A_VAR) { mpq_class q; m->reals[a]=ratOf(md.eval(atomV(a),true),&q); } }
			return SAT;
		} catch(z3::exception& e) { return UNK; }
	};
	Res r;
	if(!reals) {
		static z3::solver* inc=nullptr; static z3::context* incC=nullptr; static int uses=0;
		if(incC!=C||uses++>20000) { incC=C; uses=0; inc=new z3::solver(*C,z3::solver::simple()); }
		inc->push(); r=run(*inc,timeoutMs); inc->pop();
	}
	else {
		bool pure=iv.empty();
		auto both=[&]()->Res { Res q=run(z3::solver(*C,z3::solver::simple()),std::min(timeoutMs,pure?2000u:timeoutMs));
			if(q==UNK&&pure) { try { q=run(z3::tactic(*C,"qfnra-nlsat").mk_solver(),timeoutMs); } catch(z3::exception&) { q=UNK; } } return q; };
		// the solver does not always honour its time limit on big polynomials: those go to a process that can be stopped
		size_t size=0; { std::set<uint32_t> ps; std::function<void(const Poly*)> cp=[&](const Poly* p) { if(!ps.insert(p->id).second) return; for(auto&x:p->t) { size_t deg=0; for(auto&f:x.first->f) { deg+=std::abs(f.second); if(atoms[f.first].def) cp(atoms[f.first].def); } size+=deg; } };
			std::set<uint32_t> es; std::function<void(const Expr*)> ce=[&](const Expr* e) { if(!es.insert(e->id).second) return; if(e->p) cp(e->p); for(int i=0;i<3;i++) if(e->a[i]) ce(e->a[i]); }; for(auto c:cs) ce(c); }
		if(size<60) r=both();
		else r=forked(both,m,timeoutMs+(pure?std::min(timeoutMs,2000u):0)+1000);
	}
	if(r==SAT) sstats.sat++; else if(r==UNSAT) sstats.unsat++; else sstats.unk++;
	return r;
}
// builds num/den z3 terms over base variables (no negative powers, NAMED atoms inlined)
namespace { struct Frac { z3::expr n, d; bool one; }; }
static Frac fracAtom(int a, std::unordered_map<int,Frac>& memo);
static Frac fracPoly(const Poly*p,std::unordered_map<int,Frac>& memo) {
	// common denominator by accumulated product (nested, not expanded)
	z3::expr N=C->real_val(0), D=C->real_val(1); bool first=true, one=true;
	for(auto&x:p->t) {
		z3::expr n=ratV(x.second), d=C->real_val(1); bool o=true;
		for(auto&f:x.first->f) { Frac fa=fracAtom(f.first,memo); for(int i=0;i<std::abs(f.second);i++) {
			if(f.second>0) { n=n*fa.n; if(!fa.one) { d=o?fa.d:d*fa.d; o=false; } }
			else { d=o?fa.n:d*fa.n; o=false; if(!fa.one) n=n*fa.d; } } }
		if(first) { N=n; D=d; one=o; first=false; }
		else if(one&&o) N=N+n;
		else if(z3::eq(D,d)) N=N+n;
		else if(o) { N=N+n*D; }
		else if(one) { N=N*d+n; D=d; one=false; }
		else { N=N*d+n*D; D=D*d; }
	}
	return Frac{N,D,one};
}
static Frac fracAtom(int a,std::unordered_map<int,Frac>& memo) {
	auto it=memo.find(a); if(it!=memo.end()) return it->second;
	Frac f = atoms[a].kind==A_NAMED ? fracPoly(atoms[a].def,memo) : Frac{atomV(a),C->real_val(1),true};
	memo.emplace(a,f); return f;
}
// upper bound on the number of monomials the cross-multiplied form expands to
namespace { struct Cnt { double n, d; bool one; }; }
static Cnt cntPoly(const Poly*p,std::unordered_map<int,Cnt>& memo) {
	double N=0,D=1; bool first=true,one=true; std::vector<std::pair<int,int>> lastDen;
	for(auto&x:p->t) { double n=1,d=1; bool o=true; std::vector<std::pair<int,int>> den;
		for(auto&f:x.first->f) { auto it=memo.find(f.first); if(it==memo.end()) { Cnt c{1,1,true}; if(atoms[f.first].kind==A_NAMED) c=cntPoly(atoms[f.first].def,memo); it=memo.emplace(f.first,c).first; } Cnt fa=it->second;
			for(int i=0;i<std::abs(f.second);i++) { if(f.second>0) { n*=fa.n; if(!fa.one) { d*=fa.d; o=false; den.push_back(f); } } else { d*=fa.n; o=false; den.push_back(f); if(!fa.one) n*=fa.d; } } }
		if(first) { N=n; D=d; one=o; first=false; lastDen=den; }
		else if(one&&o) N+=n; else if(!one&&!o&&den==lastDen) N+=n; else if(o) N+=n*D; else if(one) { N=N*d+n; D=d; one=false; lastDen=den; } else { N=N*d+n*D; D*=d; lastDen.push_back({-1,0}); } }
	return Cnt{N,D,one};
}
static z3::expr mulN(std::vector<z3::expr>& v) { if(v.empty()) return C->real_val(1); if(v.size()==1) return v[0]; std::vector<Z3_ast> a; for(auto&x:v) a.push_back(x); return z3::expr(*C,Z3_mk_mul(*C,a.size(),a.data())); }
// z3's own polynomial normal form (sum of monomials) first, then its SMT core
static z3::solver somSolver(unsigned tmo) {
	z3::params p(*C); p.set("som",true); p.set("som_blowup",1000000000u); p.set("flat",true); p.set("sort_sums",true); p.set("elim_and",false);
	z3::tactic t=z3::with(z3::tactic(*C,"simplify"),p)&z3::tactic(*C,"smt"); z3::solver s=t.mk_solver(); z3::params q(*C); q.set("timeout",tmo); s.set(q); return s;
}
static Res certIdentity(const Poly*x,const Poly*y,size_t limit) {
	const Poly* d=psub(x,y); std::vector<CertStep> st; if(!certSteps(d,limit,st)) return UNK;
	{ z3::solver s=somSolver(3000); s.add(trPoly(x)-trPoly(y)!=trPoly(d)); z3::check_result r=z3::unknown; try { r=s.check(); } catch(z3::exception&) {} if(getenv("VP_DBG")&&r!=z3::unsat) { FILE*fo=fopen("/tmp/dbg","a"); fprintf(fo,"r %d first %zu %zu %zu\n x=%s\n y=%s\n d=%s\n",(int)r,x->t.size(),y->t.size(),d->t.size(),pstr(x,9).c_str(),pstr(y,9).c_str(),pstr(d,9).c_str()); fclose(fo); } if(r!=z3::unsat) return UNK; }
	for(auto&t:st) {
		z3::expr l=trPoly(t.A)*trPoly(t.D)+trPoly(t.B)*trPoly(t.M);
		z3::solver s=somSolver(3000); s.add(l!=trPoly(t.res)); z3::check_result r=z3::unknown; try { r=s.check(); } catch(z3::exception&) {}
		if(getenv("VP_DBG")&&r!=z3::unsat) { FILE*fo=fopen("/tmp/dbg","a"); fprintf(fo,"r %d step %ld/%zu A %zu D %zu B %zu M %zu res %zu\n",(int)r,&t-&st[0],st.size(),t.A->t.size(),t.D->t.size(),t.B->t.size(),t.M->t.size(),t.res->t.size()); fclose(fo); } if(r==z3::sat) return SAT; if(r!=z3::unsat) return UNK;
	}
	return UNSAT;
}
Res solverIdentity(const Poly*x,const Poly*y,unsigned timeoutMs) {
	Timer T; sstats.queries++; sstats.nlq++;
	try {
		bool sq=false; { std::set<int> at; polyAtoms(x,at,true); polyAtoms(y,at,true); for(int t:at) if(atoms[t].kind==A_SQRT) sq=true; }
		std::unordered_map<int,Cnt> cm; Cnt ca=cntPoly(x,cm), cb=cntPoly(y,cm); double bound=std::max(ca.n*cb.d,cb.n*ca.d);
		if(x!=y) { Res r=certIdentity(x,y,6000); if(r==UNSAT) { sstats.unsat++; return r; } if(r==SAT) { sstats.sat++; return r; } }
		if(x!=y&&(sq||bound>200)) { sstats.unk++; return UNK; }
		z3::solver s(*C,z3::solver::simple()); z3::params p(*C); p.set("timeout",timeoutMs); s.set(p);
		if(x==y) s.add(trPoly(x)!=trPoly(y));
		else { std::unordered_map<int,Frac> memo; Frac a=fracPoly(x,memo), b=fracPoly(y,memo);
			z3::expr l=a.n, r=b.n;
			if(!(a.one&&b.one)&&!z3::eq(a.d,b.d)) { if(!b.one) l=l*b.d; if(!a.one) r=r*a.d; }
			s.add(l!=r); }
		auto r=s.check();
		if(r==z3::unsat) { sstats.unsat++; return UNSAT; }
		if(r==z3::sat) { sstats.sat++; return SAT; }
	} catch(z3::exception&) {}
	if(getenv("VP_DBG")) { std::unordered_map<int,Cnt> cm; Cnt ca=cntPoly(x,cm), cb=cntPoly(y,cm); FILE*fo=fopen("/tmp/dbg","a"); fprintf(fo,"unk %zu %zu bounds %g %g %g %g\n x=%s\n y=%s\n",x->t.size(),y->t.size(),ca.n,ca.d,cb.n,cb.d,pstr(x,9).c_str(),pstr(y,9).c_str()); fclose(fo); }
	sstats.unk++; return UNK;
}
bool guessModel(const std::vector<const Expr*>& cs, Model& m, unsigned tries, uint64_t seed) {
	std::set<const Expr*> iv; std::set<int> at; std::set<uint32_t> seen;
	std::vector<const Expr*> ints, mixed;
	for(auto c:cs) { std::set<int64_t> s; exprSyms(c,s); bool r=false; for(auto x:s) if(x<0) r=true; (r?mixed:ints).push_back(c); }
	for(auto c:cs) collect(c,iv,at,seen);
	Model base;
	if(!ints.empty()) { if(solverCheck(ints,&base,20000)!=SAT) return false; }
	static const double pool[]={1,2,3,-1,-2,4,5,-3,0.5,7,1.5,-4,6,-5,2.5,8,0.25,11,-7,13};
	std::mt19937_64 g(seed*7919+13);
	std::vector<int> vars; for(int a:at) if(atoms[a].kind==A_VAR) vars.push_back(a);
	for(unsigned k=0;k<tries;k++) {
		Model t=base;
		int range = k<tries/4?6:(k<tries/2?12:20);
		for(int a:vars) { double v=pool[g()%range]; if(k%3==1) v=std::fabs(v); if(k%5==4) v=1+ (double)(g()%1000)/64.0; t.reals[a]=v; }
		Evaluator ev(t); bool ok=true;
		for(auto c:mixed) { if(!ev.bv(c)||ev.bad) { ok=false; break; } }
		if(ok) { m=t; sstats.guessed++; return true; }
	}
	return false;
}
std::string vpshow(const Expr*e) { std::ostringstream o; o<<tr(e); return o.str(); }
