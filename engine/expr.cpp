#include "expr.hpp"
#include <algorithm>
#include <cmath>

// ---------------------------------------------------------------- Rat
static inline bool gcdnorm(__int128 n, __int128 d, Rat& r) {
	if(n == 0) { r = Rat(0); return true; }
	if(d < 0) { n=-n; d=-d; }
	unsigned __int128 a = n<0?-n:n, b = d;
	if(d != 1) { while(b) { unsigned __int128 t=a%b; a=b; b=t; } n/=(__int128)a; d/=(__int128)a; }
	const __int128 L = ((__int128)1)<<62;
	if(n >= L || n <= -L || d >= L) return false;
	r.n=(int64_t)n; r.d=(int64_t)d; r.big.reset(); return true;
}
static Rat mk(const mpq_class& q) { Rat r; r.set(q); return r; }
Rat operator+(const Rat&a,const Rat&b) {
	if(!a.big && !b.big) { Rat r; if(gcdnorm((__int128)a.n*b.d+(__int128)b.n*a.d,(__int128)a.d*b.d,r)) return r; }
	return mk(a.q()+b.q());
}
Rat operator-(const Rat&a) { if(!a.big) { Rat r; r.n=-a.n; r.d=a.d; return r; } return mk(-a.q()); }
Rat operator-(const Rat&a,const Rat&b) { return a+(-b); }
Rat operator*(const Rat&a,const Rat&b) {
	if(!a.big && !b.big) { Rat r; if(gcdnorm((__int128)a.n*b.n,(__int128)a.d*b.d,r)) return r; }
	return mk(a.q()*b.q());
}
Rat operator/(const Rat&a,const Rat&b) {
	if(b.isZero()) throw EngineError("rational division by zero");
	if(!a.big && !b.big) { Rat r; if(gcdnorm((__int128)a.n*b.d,(__int128)a.d*b.n,r)) return r; }
	return mk(a.q()/b.q());
}
Rat Rat::fromDouble(double x) {
	if(x == (double)(int64_t)x && std::fabs(x) < 1e18) return Rat((int64_t)x);
	mpq_class q(x); q.canonicalize(); Rat r; r.set(q); return r;
}

// ---------------------------------------------------------------- monomials
std::vector<Atom> atoms;
size_t nameThreshold = 64;
struct VecHash { size_t operator()(const std::vector<std::pair<int,int>>& v) const { size_t h=v.size(); for(auto&x:v) h = h*1000003u ^ (size_t)(x.first*31+x.second); return h; } };
static std::unordered_map<std::vector<std::pair<int,int>>, Mono*, VecHash> monoTab;
static std::vector<Mono*> monos;
static const Mono* mkMono(std::vector<std::pair<int,int>>&& f) {
	auto it = monoTab.find(f); if(it != monoTab.end()) return it->second;
	Mono* m = new Mono; m->id = monos.size(); m->f = f; m->deg=0; for(auto&x:f) m->deg+=std::abs(x.second);
	monos.push_back(m); monoTab.emplace(std::move(f), m); return m;
}
static const Mono* monoMul(const Mono*a,const Mono*b) {
	if(a->f.empty()) return b; if(b->f.empty()) return a;
	std::vector<std::pair<int,int>> f; f.reserve(a->f.size()+b->f.size());
	size_t i=0,j=0;
	while(i<a->f.size()||j<b->f.size()) {
		if(j>=b->f.size() || (i<a->f.size() && a->f[i].first<b->f[j].first)) f.push_back(a->f[i++]);
		else if(i>=a->f.size() || b->f[j].first<a->f[i].first) f.push_back(b->f[j++]);
		else { int e=a->f[i].second+b->f[j].second; if(e) f.push_back({a->f[i].first,e}); i++; j++; }
	}
	return mkMono(std::move(f));
}
// ---------------------------------------------------------------- polynomials
struct PolyKey { size_t h; };
static std::unordered_multimap<size_t, Poly*> polyTab;
static uint32_t polyCnt = 0;
static const Poly* intern(std::vector<std::pair<const Mono*,Rat>>&& t) {
	size_t h = t.size();
	for(auto& x : t) h = h*0x100000001B3ull ^ (x.first->id*0x9E3779B9u + x.second.hash());
	auto r = polyTab.equal_range(h);
	for(auto it=r.first; it!=r.second; ++it) if(it->second->t == t) return it->second;
	Poly* p = new Poly; p->id = polyCnt++; p->t = std::move(t); polyTab.emplace(h,p); return p;
}
const Poly* pconst(const Rat& r) { std::vector<std::pair<const Mono*,Rat>> t; if(!r.isZero()) t.push_back({mkMono({}),r}); return intern(std::move(t)); }
const Poly* patom(int a, int e) { if(!e) return pconst(Rat(1)); std::vector<std::pair<const Mono*,Rat>> t; t.push_back({mkMono({{a,e}}),Rat(1)}); return intern(std::move(t)); }
static const Poly* addScaled(const Poly*a,const Poly*b,const Rat& s) {
	std::vector<std::pair<const Mono*,Rat>> t; t.reserve(a->t.size()+b->t.size());
	size_t i=0,j=0;
	while(i<a->t.size()||j<b->t.size()) {
		if(j>=b->t.size() || (i<a->t.size() && a->t[i].first->id<b->t[j].first->id)) t.push_back(a->t[i++]);
		else if(i>=a->t.size() || b->t[j].first->id<a->t[i].first->id) { t.push_back({b->t[j].first,b->t[j].second*s}); j++; }
		else { Rat r=a->t[i].second+b->t[j].second*s; if(!r.isZero()) t.push_back({a->t[i].first,r}); i++; j++; }
	}
	return intern(std::move(t));
}
const Poly* padd(const Poly*a,const Poly*b) { if(a->isZero()) return b; if(b->isZero()) return a; return addScaled(a,b,Rat(1)); }
const Poly* psub(const Poly*a,const Poly*b) { if(b->isZero()) return a; return addScaled(a,b,Rat(-1)); }
const Poly* pscale(const Poly*a,const Rat&r) {
	if(r.isZero()) return pconst(Rat(0)); if(r.isOne()) return a;
	auto t=a->t; for(auto&x:t) x.second=x.second*r; return intern(std::move(t));
}
const Poly* pneg(const Poly*a) { return pscale(a,Rat(-1)); }

// reduces powers of SQRT atoms (exponents outside {0,1}); returns nullptr when nothing to do
static const Poly* pmulRaw(const Poly*a,const Poly*b);
static const Poly* reduceSqrt(const Poly* p) {
	bool need=false;
	for(auto& x : p->t) for(auto& f : x.first->f) if(atoms[f.first].kind==A_SQRT && (f.second<0 || f.second>1)) need=true;
	if(!need) return p;
	const Poly* res = pconst(Rat(0));
	for(auto& x : p->t) {
		std::vector<std::pair<int,int>> keep; const Poly* mulp = nullptr;
		for(auto& f : x.first->f) {
			if(atoms[f.first].kind==A_SQRT && (f.second<0||f.second>1)) {
				int e=f.second; int r = ((e%2)+2)%2; int q=(e-r)/2;
				if(r) keep.push_back({f.first,1});
				const Poly* base = q>0 ? atoms[f.first].def : pinv(atoms[f.first].def);
				for(int i=0;i<std::abs(q);i++) mulp = mulp ? pmul(mulp,base) : base;
			} else keep.push_back(f);
		}
		std::vector<std::pair<const Mono*,Rat>> t; t.push_back({mkMono(std::move(keep)),x.second});
		const Poly* term = intern(std::move(t));
		if(mulp) term = pmul(term,mulp);
		res = padd(res,term);
	}
	return res;
}
static const Poly* pmulRaw(const Poly*a,const Poly*b) {
	if(a->t.size()==1 && a->t[0].first->f.empty()) return pscale(b,a->t[0].second);
	if(b->t.size()==1 && b->t[0].first->f.empty()) return pscale(a,b->t[0].second);
	std::unordered_map<const Mono*,Rat> acc; acc.reserve(a->t.size()*b->t.size());
	for(auto&x:a->t) for(auto&y:b->t) {
		const Mono* m=monoMul(x.first,y.first); Rat r=x.second*y.second;
		auto it=acc.find(m); if(it==acc.end()) acc.emplace(m,r); else it->second=it->second+r;
	}
	std::vector<std::pair<const Mono*,Rat>> t; t.reserve(acc.size());
	for(auto&x:acc) if(!x.second.isZero()) t.push_back(x);
	std::sort(t.begin(),t.end(),[](auto&x,auto&y){return x.first->id<y.first->id;});
	return intern(std::move(t));
}
static std::unordered_map<uint64_t,const Poly*> mulCache;
const Poly* pmul(const Poly*a,const Poly*b) {
	if(a->isZero()||b->isZero()) return pconst(Rat(0));
	if(a->id>b->id) std::swap(a,b);
	uint64_t k=((uint64_t)a->id<<32)|b->id; auto it=mulCache.find(k); if(it!=mulCache.end()) return it->second;
	const Poly* A=a; const Poly* B=b;
	// keep products small: name big factors
	if(A->t.size()*B->t.size() > nameThreshold*nameThreshold/4) {
		if(A->t.size()>nameThreshold/4) A=pnamed(A);
		if(B->t.size()>nameThreshold/4) B=pnamed(B);
	}
	const Poly* r = reduceSqrt(pmulRaw(A,B));
	mulCache.emplace(k,r); return r;
}
int newVar(const std::string& name) { int id=atoms.size(); atoms.push_back(Atom{id,A_VAR,name}); return id; }
static std::unordered_map<uint64_t,int> defTab;  // (kind,poly) -> atom
static int defAtom(AtomKind k,const Poly*p,const char*nm) {
	uint64_t key=((uint64_t)k<<32)|p->id; auto it=defTab.find(key); if(it!=defTab.end()) return it->second;
	int id=atoms.size(); Atom a; a.id=id; a.kind=k; a.name=std::string(nm)+std::to_string(id); a.def=p; atoms.push_back(a); defTab[key]=id; return id;
}
int i2rAtom(const Expr* e) {
	uint64_t key=((uint64_t)A_I2R<<32)|e->id; auto it=defTab.find(key); if(it!=defTab.end()) return it->second;
	int id=atoms.size(); Atom a; a.id=id; a.kind=A_I2R; a.name="i2r"+std::to_string(id); a.iexpr=e; atoms.push_back(a); defTab[key]=id; return id;
}
// scale so that the leading coefficient is one
static Rat leadc(const Poly* p) { return p->t[0].second; }
const Poly* pnamed(const Poly*a) {
	if(a->t.size()<=1) return a;
	Rat c=leadc(a); const Poly* n = pscale(a,Rat(1)/c);
	return pscale(patom(defAtom(A_NAMED,n,"n")),c);
}
const Poly* pinv(const Poly*a) {
	if(a->isZero()) throw EngineError("inverse of the zero polynomial");
	const Poly* s = a->t.size()==1 ? a : pnamed(a);
	// single term
	std::vector<std::pair<int,int>> f = s->t[0].first->f; for(auto&x:f) x.second=-x.second;
	std::vector<std::pair<const Mono*,Rat>> t; t.push_back({mkMono(std::move(f)),Rat(1)/s->t[0].second});
	return reduceSqrt(intern(std::move(t)));
}
const Poly* psqrt(const Poly*a) {
	if(a->isConst()) {
		mpq_class q=a->constVal().q(); if(::sgn(q)<0) throw EngineError("sqrt of negative constant");
		mpz_class n=q.get_num(), d=q.get_den(), rn, rd; 
		if(mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())) { mpz_sqrt(rn.get_mpz_t(),n.get_mpz_t()); mpz_sqrt(rd.get_mpz_t(),d.get_mpz_t()); return pconst(Rat(mpq_class(rn,rd))); }
	}
	return patom(defAtom(A_SQRT,a,"sqrt"));
}
const Poly* pabs(const Poly*a) {
	if(a->isConst()) { Rat r=a->constVal(); return pconst(r.sgn()<0?-r:r); }
	Rat c=leadc(a); const Poly* n=pscale(a,Rat(1)/c); if(c.sgn()<0) c=-c;
	if(n->t.size()==1 && n->t[0].first->f.size()==1 && n->t[0].first->f[0].second==1) {
		AtomKind k=atoms[n->t[0].first->f[0].first].kind; if(k==A_ABS||k==A_SQRT) return pscale(n,c);
	}
	return pscale(patom(defAtom(A_ABS,n,"abs")),c);
}
std::string pstr(const Poly* p, size_t lim) {
	if(p->isZero()) return "0"; std::string s; size_t k=0;
	for(auto&x:p->t) { if(k++>=lim) { s+=" + ..."; break; } if(!s.empty()) s+=" + "; s+=x.second.str();
		for(auto&f:x.first->f) { s+="*"+atoms[f.first].name; if(f.second!=1) s+="^"+std::to_string(f.second); } }
	return s;
}
void polyAtoms(const Poly* p, std::set<int>& out, bool trans) {
	for(auto&x:p->t) for(auto&f:x.first->f) if(out.insert(f.first).second && trans && atoms[f.first].def) polyAtoms(atoms[f.first].def,out,true);
}
static const Poly* ppow(const Poly*a,int e) { const Poly* r=pconst(Rat(1)); for(int i=0;i<e;i++) r=pmulRaw(r,a); return r; }
const Poly* pexpand(const Poly* p, size_t limit) {
	size_t saved=nameThreshold; nameThreshold=1u<<30;
	mulCache.clear();
	struct R { size_t s; ~R(){ nameThreshold=s; mulCache.clear(); } } r{saved};
	for(int iter=0; iter<10000; iter++) {
		if(p->t.size()>limit) return nullptr;
		// eliminate the youngest NAMED atom, clearing its negative powers first
		int best=-1; bool anyneg=false;
		std::map<int,int> minexp;
		for(auto&x:p->t) for(auto&f:x.first->f) { if(f.second<0) { anyneg=true; auto&m=minexp[f.first]; m=std::min(m,f.second);} if(atoms[f.first].kind==A_NAMED) best=std::max(best,f.first); }
		if(best<0) {
			if(!anyneg) return p;
			std::vector<std::pair<int,int>> f; for(auto&m:minexp) f.push_back({m.first,-m.second});
			std::vector<std::pair<const Mono*,Rat>> t; t.push_back({mkMono(std::move(f)),Rat(1)});
			p=reduceSqrt(pmulRaw(p,intern(std::move(t)))); continue;
		}
		int mn = minexp.count(best)?minexp[best]:0;
		const Poly* d=atoms[best].def;
		std::map<int,const Poly*> pw;
		std::map<int,std::vector<std::pair<const Mono*,Rat>>> groups;
		for(auto&x:p->t) { int e=0; std::vector<std::pair<int,int>> keep; for(auto&f:x.first->f) if(f.first==best) e=f.second; else keep.push_back(f);
			groups[e-mn].push_back({mkMono(std::move(keep)),x.second}); }
		const Poly* res=pconst(Rat(0));
		for(auto&g:groups) {
			std::sort(g.second.begin(),g.second.end(),[](auto&x,auto&y){return x.first->id<y.first->id;});
			const Poly* c=intern(std::move(g.second));
			const Poly* dp=ppow(d,g.first);
			if(c->t.size()*dp->t.size()>limit*20) return nullptr;
			res=padd(res,reduceSqrt(pmulRaw(c,dp)));
			if(res->t.size()>limit*4) return nullptr;
		}
		p=res;
	}
	return nullptr;
}

bool certSteps(const Poly* p, size_t limit, std::vector<CertStep>& steps) {
	auto clearing=[&](const Poly* q)->const Poly* { std::map<int,int> mn; for(auto&x:q->t) for(auto&f:x.first->f) if(f.second<0) { auto&m=mn[f.first]; m=std::min(m,f.second); }
		if(mn.empty()) return nullptr; std::vector<std::pair<int,int>> f; for(auto&m:mn) f.push_back({m.first,-m.second});
		std::vector<std::pair<const Mono*,Rat>> t; t.push_back({mkMono(std::move(f)),Rat(1)}); return intern(std::move(t)); };
	for(int iter=0;iter<200;iter++) {
		if(p->isZero()) return true;
		if(p->t.size()>limit) return false;
		if(const Poly* m=clearing(p)) p=pmulRaw(p,m);
		int best=-1; for(auto&x:p->t) for(auto&f:x.first->f) if(atoms[f.first].kind==A_NAMED||(atoms[f.first].kind==A_SQRT&&f.second>1)) best=std::max(best,f.first);
		if(best<0) return false;
		bool sq=atoms[best].kind==A_SQRT; const Poly* D=atoms[best].def; const Poly* M=clearing(D); if(M) D=pmulRaw(D,M);
		std::map<int,std::vector<std::pair<const Mono*,Rat>>> groups; int G=0;
		for(auto&x:p->t) { int e=0; std::vector<std::pair<int,int>> keep; for(auto&f:x.first->f) if(f.first==best) { e=f.second; if(sq&&e%2) keep.push_back({best,1}); } else keep.push_back(f);
			if(sq) e/=2; std::sort(keep.begin(),keep.end()); groups[e].push_back({mkMono(std::move(keep)),x.second}); G=std::max(G,e); }
		// Horner scheme: R <- R D + c_g M^(G-g)
		const Poly* R=pconst(Rat(0));
		for(int g=G;g>=0;g--) {
			const Poly* c=pconst(Rat(0)); auto it=groups.find(g); if(it!=groups.end()) for(auto&x:it->second) { std::vector<std::pair<const Mono*,Rat>> t; t.push_back(x); c=padd(c,intern(std::move(t))); }
			const Poly* m=M?ppow(M,G-g):pconst(Rat(1));
			if(R->t.size()*D->t.size()>limit) return false;
			CertStep st; st.A=R; st.D=D; st.B=c; st.M=m; R=padd(pmulRaw(R,D),pmulRaw(c,m)); st.res=R; if(g<G) steps.push_back(st); else if(!m->isConst()) return false; }
		p=R;
	}
	return false;
}

// ---------------------------------------------------------------- BV expressions
struct EKey { EK k; uint8_t w; uint64_t c; const Expr*a,*b,*d; const Poly*p; bool operator==(const EKey&o) const { return k==o.k&&w==o.w&&c==o.c&&a==o.a&&b==o.b&&d==o.d&&p==o.p; } };
struct EHash { size_t operator()(const EKey&k) const { size_t h=k.k*131+k.w; h=h*0x9E3779B97F4A7C15ull^k.c; h=h*31+(size_t)k.a; h=h*31+(size_t)k.b; h=h*31+(size_t)k.d; h=h*31+(size_t)k.p; return h^(h>>29); } };
static std::unordered_map<EKey,Expr*,EHash> eTab; static uint32_t eCnt=1;
std::vector<const Expr*> allIntVars;
static const Expr* mkE(EK k,unsigned w,uint64_t c,const Expr*a=nullptr,const Expr*b=nullptr,const Expr*d=nullptr,const Poly*p=nullptr) {
	EKey key{k,(uint8_t)w,c,a,b,d,p}; auto it=eTab.find(key); if(it!=eTab.end()) return it->second;
	Expr* e=new Expr; e->k=k; e->w=w; e->id=eCnt++; e->cval=c; e->a[0]=a; e->a[1]=b; e->a[2]=d; e->p=p; e->name=nullptr; eTab.emplace(key,e); return e;
}
const Expr* eConst(unsigned w,uint64_t v) { return mkE(E_CONST,w,v&maskw(w)); }
const Expr* eVar(const std::string& name,unsigned w,int lo,int hi) {
	Expr* e=new Expr; e->k=E_VAR; e->w=w; e->id=eCnt++; e->cval=0; e->a[0]=e->a[1]=e->a[2]=nullptr; e->p=nullptr; e->name=new std::string(name); e->lo=lo; e->hi=hi; allIntVars.push_back(e); return e;
}
const Expr* eReal(const Poly*p) { return mkE(E_REAL,64,0,nullptr,nullptr,nullptr,p); }
const Expr* eUndef(unsigned w) { return mkE(E_UNDEF,w,0); }
static inline bool isC(const Expr*e) { return e->k==E_CONST; }
static void chk(const Expr*a) { if(a->k==E_REAL) throw EngineError("integer operation on the bits of a symbolic real"); if(a->k==E_UNDEF||a->k==E_AGG) throw EngineError("bad operand kind"); }
uint64_t foldBin(EK k,unsigned w,uint64_t a,uint64_t b,bool& ok) {
	ok=true; uint64_t M=maskw(w);
	switch(k) {
	case E_ADD: return (a+b)&M; case E_SUB: return (a-b)&M; case E_MUL: return (a*b)&M;
	case E_UDIV: if(!b) { ok=false; return 0; } return a/b;
	case E_UREM: if(!b) { ok=false; return 0; } return a%b;
	case E_SDIV: { int64_t x=sextw(a,w),y=sextw(b,w); if(!y||(y==-1&&a==(1ull<<(w-1)))) { ok=false; return 0; } return (uint64_t)(x/y)&M; }
	case E_SREM: { int64_t x=sextw(a,w),y=sextw(b,w); if(!y||(y==-1&&a==(1ull<<(w-1)))) { ok=false; return 0; } return (uint64_t)(x%y)&M; }
	case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
	case E_SHL: if(b>=w) { ok=false; return 0; } return (a<<b)&M;
	case E_LSHR: if(b>=w) { ok=false; return 0; } return a>>b;
	case E_ASHR: if(b>=w) { ok=false; return 0; } return (uint64_t)(sextw(a,w)>>b)&M;
	case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b;
	case E_SLT: return sextw(a,w)<sextw(b,w); case E_SLE: return sextw(a,w)<=sextw(b,w);
	default: ok=false; return 0;
	}
}
static bool commut(EK k) { return k==E_ADD||k==E_MUL||k==E_AND||k==E_OR||k==E_XOR||k==E_EQ; }
const Expr* eBin(EK k,const Expr*a,const Expr*b) {
	chk(a); chk(b);
	if(a->w!=b->w) throw EngineError("width mismatch");
	unsigned w=a->w; bool cmp=(k>=E_EQ&&k<=E_SLE);
	if(isC(a)&&isC(b)) { bool ok; uint64_t r=foldBin(k,w,a->cval,b->cval,ok); if(!ok) throw EngineError("undefined integer operation"); return eConst(cmp?1:w,r); }
	if(commut(k)) { if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b); }
	if(isC(b)) {
		uint64_t c=b->cval;
		if(c==0) { if(k==E_ADD||k==E_SUB||k==E_OR||k==E_XOR||k==E_SHL||k==E_LSHR||k==E_ASHR) return a; if(k==E_MUL||k==E_AND) return b; if(k==E_ULT) return eConst(1,0); }
		if(c==1&&(k==E_MUL||k==E_UDIV||k==E_SDIV)) return a;
		if(c==maskw(w)) { if(k==E_AND) return a; if(k==E_OR) return b; }
		if(k==E_SUB) return eBin(E_ADD,a,eConst(w,-c));
		if(k==E_ADD&&a->k==E_ADD&&isC(a->a[1])) return eBin(E_ADD,a->a[0],eConst(w,a->a[1]->cval+c));
		if(k==E_EQ) {
			if(w==1) return c?a:eNot(a);
			if(a->k==E_ADD&&isC(a->a[1])) return eBin(E_EQ,a->a[0],eConst(w,c-a->a[1]->cval));
			if(a->k==E_ZEXT) { if(c>maskw(a->a[0]->w)) return eConst(1,0); return eBin(E_EQ,a->a[0],eConst(a->a[0]->w,c)); }
			if(a->k==E_SEXT) { unsigned iw=a->a[0]->w; if((uint64_t)(sextw(c,iw)&(int64_t)maskw(w))!=c) return eConst(1,0); return eBin(E_EQ,a->a[0],eConst(iw,c)); }
			if(a->k==E_ITE&&isC(a->a[1])&&isC(a->a[2])) { bool t=a->a[1]->cval==c,f=a->a[2]->cval==c; if(t&&f) return eConst(1,1); if(!t&&!f) return eConst(1,0); return t?a->a[0]:eNot(a->a[0]); }
			if(a->k==E_ITE) { const Expr* q=eBin(E_EQ,a->a[2],b); if(isC(q)) return eIte(a->a[0],eBin(E_EQ,a->a[1],b),q); q=eBin(E_EQ,a->a[1],b); if(isC(q)) return eIte(a->a[0],q,eBin(E_EQ,a->a[2],b)); }
		}
		if(k==E_XOR&&w==1&&c==1) {
			if(a->k==E_XOR&&isC(a->a[1])) return a->a[0];
			if(a->k==E_RCMP) { // !(p<0) == -p<=0 ; !(p<=0) == -p<0
				if(a->cval==1) return eRcmp(2,pneg(a->p)); if(a->cval==2) return eRcmp(1,pneg(a->p)); }
			if(a->k==E_SLT) return eBin(E_SLE,a->a[1],a->a[0]);
			if(a->k==E_SLE) return eBin(E_SLT,a->a[1],a->a[0]);
			if(a->k==E_ULT) return eBin(E_ULE,a->a[1],a->a[0]);
			if(a->k==E_ULE) return eBin(E_ULT,a->a[1],a->a[0]);
		}
	}
	if(a==b) {
		switch(k) { case E_SUB: case E_XOR: return eConst(w,0); case E_AND: case E_OR: return a; case E_EQ: case E_ULE: case E_SLE: return eConst(1,1); case E_ULT: case E_SLT: return eConst(1,0); default: break; }
	}
	if(w==1&&(k==E_AND||k==E_OR)) { if(eNot(a)==b) return eConst(1,k==E_OR); }
	return mkE(k,cmp?1:w,0,a,b);
}
const Expr* eNot(const Expr*a) { if(a->w!=1) throw EngineError("eNot width"); if(isC(a)) return eConst(1,!a->cval); return eBin(E_XOR,a,eConst(1,1)); }
const Expr* eIte(const Expr*c,const Expr*a,const Expr*b) {
	if(isC(c)) return c->cval?a:b; if(a==b) return a; chk(a); chk(b);
	if(a->w==1) { if(isC(a)) return a->cval?eBin(E_OR,c,b):eBin(E_AND,eNot(c),b); if(isC(b)) return b->cval?eBin(E_OR,eNot(c),a):eBin(E_AND,c,a); }
	return mkE(E_ITE,a->w,0,c,a,b);
}
const Expr* eCast(EK k,const Expr*a,unsigned w) {
	chk(a);
	if(a->w==w) return a;
	if(isC(a)) return eConst(w,k==E_SEXT?(uint64_t)sextw(a->cval,a->w):a->cval);
	if(k==E_ZEXT&&a->k==E_ZEXT) return eCast(E_ZEXT,a->a[0],w);
	if(k==E_SEXT&&a->k==E_SEXT) return eCast(E_SEXT,a->a[0],w);
	if(k==E_SEXT&&a->k==E_ZEXT) return eCast(E_ZEXT,a->a[0],w);
	return mkE(k,w,0,a);
}
const Expr* eExtract(const Expr*a,unsigned lo,unsigned w) {
	chk(a);
	if(lo==0&&w==a->w) return a; if(isC(a)) return eConst(w,a->cval>>lo);
	if(a->k==E_EXTRACT) return eExtract(a->a[0],a->cval+lo,w);
	if((a->k==E_ZEXT||a->k==E_SEXT)&&lo+w<=a->a[0]->w) return eExtract(a->a[0],lo,w);
	if((a->k==E_ZEXT||a->k==E_SEXT)&&lo==0&&w>a->a[0]->w) return eCast(a->k,a->a[0],w);
	if(a->k==E_ZEXT&&lo>=a->a[0]->w) return eConst(w,0);
	if(a->k==E_CONCAT) { unsigned lw=a->a[1]->w; if(lo+w<=lw) return eExtract(a->a[1],lo,w); if(lo>=lw) return eExtract(a->a[0],lo-lw,w); }
	if(lo==0&&(a->k==E_ADD||a->k==E_SUB||a->k==E_MUL||a->k==E_AND||a->k==E_OR||a->k==E_XOR)) return eBin(a->k,eExtract(a->a[0],0,w),eExtract(a->a[1],0,w));
	return mkE(E_EXTRACT,w,lo,a);
}
const Expr* eConcat(const Expr*hi,const Expr*lo) {
	chk(hi); chk(lo);
	if(isC(hi)&&isC(lo)) return eConst(hi->w+lo->w,(hi->cval<<lo->w)|lo->cval);
	if(hi->k==E_EXTRACT&&lo->k==E_EXTRACT&&hi->a[0]==lo->a[0]&&hi->cval==lo->cval+lo->w) return eExtract(hi->a[0],lo->cval,hi->w+lo->w);
	if(isC(hi)&&hi->cval==0) return eCast(E_ZEXT,lo,hi->w+lo->w);
	return mkE(E_CONCAT,hi->w+lo->w,0,hi,lo);
}
const Expr* eRcmp(int op,const Poly*p) {
	if(p->isConst()) { int s=p->constVal().sgn(); return eConst(1,op==0?s==0:op==1?s<0:s<=0); }
	Rat c=p->t[0].second; Rat ac=c.sgn()<0?-c:c;
	if(op==0) p=pscale(p,Rat(1)/c); else if(!ac.isOne()) p=pscale(p,Rat(1)/ac);
	// abs/sqrt atoms are non-negative
	if(p->t.size()==1&&p->t[0].first->f.size()==1&&p->t[0].first->f[0].second==1) {
		const Atom& at=atoms[p->t[0].first->f[0].first];
		if(at.kind==A_ABS||at.kind==A_SQRT) { bool neg=p->t[0].second.sgn()<0;
			if(op==1&&!neg) return eConst(1,0); if(op==2&&neg) return eConst(1,1);
			if(op==2&&!neg) return eRcmp(0,at.def); if(op==0) return eRcmp(0,at.def);
			if(op==1&&neg) return eNot(eRcmp(0,at.def)); }
	}
	return mkE(E_RCMP,1,op,nullptr,nullptr,nullptr,p);
}
void exprSyms(const Expr*e,std::set<int64_t>&out) {
	static std::unordered_map<uint32_t,std::vector<int64_t>> cache;
	auto it=cache.find(e->id);
	if(it!=cache.end()) { out.insert(it->second.begin(),it->second.end()); return; }
	std::set<int64_t> s;
	if(e->k==E_VAR) s.insert(e->id);
	else if(e->p) { std::set<int> as; polyAtoms(e->p,as,true); for(int a:as) { if(atoms[a].iexpr) exprSyms(atoms[a].iexpr,s); s.insert(-(int64_t)a-1); } }
	else for(int i=0;i<3;i++) if(e->a[i]) exprSyms(e->a[i],s);
	cache[e->id]=std::vector<int64_t>(s.begin(),s.end());
	out.insert(s.begin(),s.end());
}
// ---------------------------------------------------------------- evaluation
double Evaluator::atom(int a) {
	auto it=cache.find(a); if(it!=cache.end()) return it->second;
	double r=0; const Atom& at=atoms[a];
	switch(at.kind) {
	case A_VAR: { auto f=m.reals.find(a); r=f==m.reals.end()?1.0:f->second; break; }
	case A_NAMED: { double mag; r=poly(at.def,&mag); if(std::fabs(r)<1e-11*mag) r=0; break; }
	case A_SQRT: { double x=poly(at.def); if(x<0) bad=true; r=std::sqrt(std::fabs(x)); break; }
	case A_ABS: r=std::fabs(poly(at.def)); break;
	case A_I2R: r=(double)sextw(bv(at.iexpr),at.iexpr->w); break;
	}
	cache[a]=r; return r;
}
double Evaluator::poly(const Poly*p,double*mag) {
	double s=0,g=0;
	for(auto&x:p->t) { double v=x.second.toDouble(); for(auto&f:x.first->f) { double b=atom(f.first); if(f.second<0&&b==0) { bad=true; return 0; } v*=std::pow(b,f.second); } s+=v; g+=std::fabs(v); }
	if(mag) *mag=g; if(!std::isfinite(s)) bad=true; return s;
}
uint64_t foldBin(EK k,unsigned w,uint64_t a,uint64_t b,bool& ok);
uint64_t Evaluator::bv(const Expr*e) {
	auto it=ic.find(e->id); if(it!=ic.end()) return it->second; uint64_t r=0;
	switch(e->k) {
	case E_CONST: r=e->cval; break;
	case E_VAR: { auto f=m.ints.find(e->id); r=(f==m.ints.end()?(uint64_t)(int64_t)e->lo:f->second)&maskw(e->w); break; }
	case E_ITE: r=bv(e->a[0])?bv(e->a[1]):bv(e->a[2]); break;
	case E_ZEXT: r=bv(e->a[0]); break;
	case E_SEXT: r=(uint64_t)sextw(bv(e->a[0]),e->a[0]->w)&maskw(e->w); break;
	case E_EXTRACT: r=(bv(e->a[0])>>e->cval)&maskw(e->w); break;
	case E_CONCAT: r=(bv(e->a[0])<<e->a[1]->w)|bv(e->a[1]); break;
	case E_RCMP: { double mag; double v=poly(e->p,&mag); double t=tol*mag; int s=v>t?1:(v<-t?-1:0); r=e->cval==0?s==0:e->cval==1?s<0:s<=0; break; }
	case E_REAL: case E_UNDEF: case E_AGG: bad=true; break;
	default: { bool ok; r=foldBin(e->k,e->a[0]->w,bv(e->a[0]),bv(e->a[1]),ok); if(!ok) bad=true; }
	}
	ic[e->id]=r; return r;
}
