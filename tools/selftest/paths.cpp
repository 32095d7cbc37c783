#include "vp.h"
#include <cstdlib>
static int T[256];
void vp_entry() { const int n=4; int a[n], id[n]; for(int i=0;i<n;i++) { a[i]=vp_int("a",0,9); id[i]=i; }
 for(int i=1;i<n;i++) for(int j=i;j>0&&a[id[j]]<a[id[j-1]];j--) { int t=id[j]; id[j]=id[j-1]; id[j-1]=t; }
 char nm[16]; int k=0; for(int i=0;i<n;i++) { nm[k++]='0'+vp_concrete(id[i]); if(i+1<n) nm[k++]= vp_concrete(a[id[i]]==a[id[i+1]])?'=':'<'; } nm[k]=0; vp_cover(nm);
 for(int i=0;i+1<n;i++) vp_assert(a[id[i]]<=a[id[i+1]],"sorted"); vp_cover("end"); }
