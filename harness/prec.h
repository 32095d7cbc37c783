// Uniform construction of the preconditioners for scalar and block matrices.
#pragma once
#include "ref.h"
#include <solverops_base.hpp>
#include <solverops_jacobi.hpp>
#include <solverops_sgs.hpp>
#include <solverops_ilu0.hpp>
#include <solverops_levels_sgs.hpp>
#include <solverops_levels_ilu0.hpp>
#include <relaxation_chaotic.hpp>
#include <stdexcept>
typedef SRPreconditioner<double,int> Prec;
typedef SRMatrixStorage<const double,const int> SRC;
template<int bs,StorageOptions st> struct Mk {
	static Prec* jacobi(SRC&& m) { return new BJacobiSRPreconditioner<double,int,bs,st>(std::move(m)); }
	static Prec* sgs(SRC&& m,int sw,ApplyInit ai,int ch) { return new AsyncBlockSGS_SRPreconditioner<double,int,bs,st>(std::move(m),sw,ai,ch); }
	static Prec* lsgs(SRC&& m) { return new Level_BSGS<double,int,bs,st>(std::move(m)); }
	static Prec* ilu(SRC&& m,int nb,int na,bool sc,int ch,FactInit fi,ApplyInit ai,bool tf,bool ta,bool info) { return new AsyncBlockILU0_SRPreconditioner<double,int,bs,st>(std::move(m),nb,na,sc,ch,fi,ai,tf,ta,info); }
	static Prec* lilu(SRC&& m,int nb,bool sc,int ch,FactInit fi,bool tf,bool info) { return new Async_Level_BlockILU0<double,int,bs,st>(std::move(m),nb,sc,ch,fi,tf,info); }
	static Prec* chaotic(SRC&& m,int sw,int ch) { return new ChaoticBlockRelaxation<double,int,bs,st>(std::move(m),sw,ch); }
};
template<StorageOptions st> struct Mk<1,st> {
	static Prec* jacobi(SRC&& m) { return new JacobiSRPreconditioner<double,int>(std::move(m)); }
	static Prec* sgs(SRC&& m,int sw,ApplyInit ai,int ch) { return new AsyncSGS_SRPreconditioner<double,int>(std::move(m),sw,ai,ch); }
	static Prec* lsgs(SRC&& m) { return new Level_SGS<double,int>(std::move(m)); }
	static Prec* ilu(SRC&& m,int nb,int na,bool sc,int ch,FactInit fi,ApplyInit ai,bool tf,bool ta,bool info) { return new AsyncILU0_SRPreconditioner<double,int>(std::move(m),nb,na,sc,ch,fi,ai,info,tf,ta); }
	static Prec* lilu(SRC&& m,int nb,bool sc,int ch,FactInit fi,bool tf,bool info) { return new Async_Level_ILU0<double,int>(std::move(m),nb,sc,ch,fi,tf,info); }
	static Prec* chaotic(SRC&& m,int sw,int ch) { return new ChaoticRelaxation<double,int>(std::move(m),sw,ch); }
};
// scaling needs positive diagonal entries
static inline void posdiag(const TM& m,bool rm) { for(int i=0;i<m.n;i++) for(int r=0;r<m.bs;r++) vp_assume(m.ent(m.diag[i],r,r,rm)>0); }
#ifndef ONLYBS
#define DISPATCH(F) do { int bs_=vp_cfg("bs",1),rm_=vp_cfg("rm",0); if(bs_==1) F<1,ColMajor>(); else if(bs_==2&&rm_) F<2,RowMajor>(); else if(bs_==2) F<2,ColMajor>(); else if(bs_==4&&rm_) F<4,RowMajor>(); else if(bs_==4) F<4,ColMajor>(); else vp_assert(0,"bad configuration"); } while(0)
#else
#define DISPATCH(F) F<ONLYBS,ColMajor>()
#endif
