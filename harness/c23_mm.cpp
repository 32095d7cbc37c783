#include "coo.h"
#include <coomatrix.hpp>
#include <stdexcept>
// mode 0: every header; 1: truncated body; 2: entries outside the matrix; 3: file that cannot be opened; 4: dense; 5: matrices built directly from a file; 6: malformed header and size lines
static const char* ST[]={"coordinate","array","Coordinate"}; static const char* SC[]={"real","integer","complex","pattern","patter"}; static const char* TY[]={"general","symmetric","skew-symmetric","hermitian","skewsymmetric"};
static bool tryread(COOMatrix<double,int>& M,const char* fn) { try { M.readMatrixMarket(fn); return true; } catch(const std::exception&) { return false; } catch(const char*) { return false; } }
static void same(const COOMatrix<double,int>& M,const Coo& A) { const auto& e=M.getEntries(); int k=0; vp_assert((int)e.size()==A.nnz&&M.numrows()==A.n&&M.numcols()==A.n&&M.numnonzeros()==A.nnz,"sizes are those of the file");
	for(int i=0;i<A.n;i++) for(int j=0;j<A.n;j++) if(A.has[i][j]) { vp_assert(e[k].rowind==i&&e[k].colind==j,"entries are sorted by row, then column, with zero-based indices"); vp_assert_eq(e[k].value,A.v[i][j],"an entry keeps its value"); vp_out(e[k].value); k++; } }
void vp_entry() {
	int mode=vp_cfg("mode",0), n=vp_cfg("n",2); Coo A; 
	if(mode==0) {
		const int bad=vp_cfg("badnames",0); int st=vp_concrete(vp_int("storage",0,1+bad)), sc=vp_concrete(vp_int("scalar",0,3+bad)), ty=vp_concrete(vp_int("type",0,3+bad)), cm=vp_concrete(vp_int("comments",0,vp_cfg("comments",3)));
		coo_header(ST[st],SC[sc],TY[ty]); coo_comments(cm); coo_entries(A,n,-1ul,vp_cfg("maxnnz",16),true); coo_order(A,0); coo_body(A); vp_write_file("m.mtx");
		COOMatrix<double,int> M; bool ok=tryread(M,"m.mtx");
		vp_assert(ok==(st==0&&sc<=1&&ty==0),"exactly the real or integer general coordinate files are accepted"); if(ok) same(M,A);
	} else if(mode==1) {
		coo_header(); coo_entries(A,n,-1ul,vp_cfg("maxnnz",16),true); int k=vp_concrete(vp_int("lines",0,A.nnz-1)), t=vp_concrete(vp_int("tokens",0,2)); coo_body(A,k,t); vp_write_file("m.mtx");
		COOMatrix<double,int> M; vp_assert(!tryread(M,"m.mtx"),"a truncated file is refused");
	} else if(mode==2) {
		coo_header(); int r=vp_concrete(vp_int("row",-1,n+2)), c=vp_concrete(vp_int("col",-1,n+2)); bool in=r>=1&&r<=n&&c>=1&&c<=n; vp_assume(!(in&&r!=c)); // the other rows hold their diagonal
		vp_line(); vp_tok_i(n); vp_tok_i(n); vp_tok_i(in?n:n+1); for(int i=1;i<=n;i++) if(!(in&&i==r)) { vp_line(); vp_tok_i(i); vp_tok_i(i); vp_tok_r(1.0); } vp_line(); vp_tok_i(r); vp_tok_i(c); vp_tok_r(2.0); vp_write_file("m.mtx");
		COOMatrix<double,int> M; vp_assert(tryread(M,"m.mtx")==in,"an entry outside the matrix is refused");
	} else if(mode==3) { // no such file
		COOMatrix<double,int> M; vp_assert(!tryread(M,"nosuchfile.mtx"),"a file that cannot be opened is refused"); bool ok=true; try { device_vector<double> d=readDenseMatrixMarket<double>("nosuchfile.mtx"); } catch(const std::exception&) { ok=false; } catch(const char*) { ok=false; } vp_assert(!ok,"a file that cannot be opened is refused");
	} else if(mode==6) { // headers with any number of words, a wrong first word, nothing after the header or the comments, size lines of any length, words instead of sizes
		static const char* W[]={"%%MatrixMarket","matrix","coordinate","real","general","extra"}; int dense=vp_concrete(vp_int("dense",0,1)), words=vp_concrete(vp_int("words",0,6)), banner=vp_concrete(vp_int("banner",0,1)), cm=vp_concrete(vp_int("comments",0,2)), sizes=vp_concrete(vp_int("sizes",-1,3)), word=vp_concrete(vp_int("notanumber",0,3)), body=vp_concrete(vp_int("body",0,1));
		vp_assume(word<=(sizes<0?0:sizes)); vp_line(); for(int i=0;i<words;i++) vp_tok_s(i==0&&banner?"%MatrixMarket":dense&&i==2?"array":W[i]); coo_comments(cm);
		if(sizes>=0) { vp_line(); for(int i=0;i<sizes;i++) if(i+1==word) vp_tok_s(i==2?"99999999999999999999":"n"); else vp_tok_i(1); if(body) { vp_line(); if(!dense) { vp_tok_i(1); vp_tok_i(1); } vp_tok_r(2.0); } }
		vp_write_file("m.mtx"); const bool good=words==5&&!banner&&word==0&&sizes>=(dense?2:3)&&body; bool ok=true;
		if(dense) { try { device_vector<double> d=readDenseMatrixMarket<double>("m.mtx"); vp_assert(d.size()==1,"one value"); } catch(const std::exception&) { ok=false; } catch(const char*) { ok=false; } }
		else { COOMatrix<double,int> M; ok=tryread(M,"m.mtx"); }
		vp_assert(ok==good,"exactly the files with a complete header, size line and body are accepted");
	} else if(mode==4) {
		int m=vp_cfg("m",2), cm=vp_concrete(vp_int("comments",0,2)), st=vp_concrete(vp_int("storage",0,1)), ty=vp_concrete(vp_int("type",0,1)); int sc=vp_concrete(vp_int("scalar",0,3)); int miss=sc==0?vp_concrete(vp_int("missing",0,n*m)):0;
		coo_header(ST[1-st],SC[sc],TY[ty]); coo_comments(cm); vp_line(); vp_tok_i(n); vp_tok_i(m); if(st==1) vp_tok_i(n*m); double* v=darr(n*m);
		for(int i=0;i<n*m;i++) { v[i]=vp_real("v"); if(i<n*m-miss) { vp_line(); vp_tok_r(v[i]); } } vp_write_file("m.mtx");
		bool ok=true; { device_vector<double> d; try { d=readDenseMatrixMarket<double>("m.mtx"); } catch(const std::exception&) { ok=false; } catch(const char*) { ok=false; }
		vp_assert(ok==(st==0&&sc<=1&&ty==0&&miss==0),"exactly complete general dense files are accepted");
		if(ok) { vp_assert((int)d.size()==n*m,"all values are read"); for(int i=0;i<n*m;i++) { vp_assert_eq(d[i],v[i],"values are in the order of the file"); vp_out(d[i]); } } }
		free(v);
	} else if(mode==5) {
		coo_header(); coo_comments(2); coo_entries(A,n,-1ul,vp_cfg("maxnnz",16),true); coo_order(A,0); coo_body(A); vp_write_file("m.mtx"); int N=n; double* x=mkvec(N,"x"); double* y=darr(N);
		if(vp_cfg("bs",1)==1) { BSRMatrix<double,int,1> B=constructBSRMatrixFromMatrixMarketFile<double,int,1>("m.mtx"); B.apply(x,y); }
		else { BSRMatrix<double,int,2> B=constructBSRMatrixFromMatrixMarketFile<double,int,2>("m.mtx"); B.apply(x,y); }
		for(int i=0;i<n;i++) { double s=0; for(int j=0;j<n;j++) if(A.has[i][j]) s+=A.v[i][j]*x[j]; vp_assert_eq(y[i],s,"the matrix built from the file multiplies like the listed entries"); vp_out(y[i]); }
		free(x); free(y);
	}
	vp_cover("end");
}
