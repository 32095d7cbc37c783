// Harness primitives.  Under the symbolic executor these are intercepted; natively they read the
// counterexample (VP_MODEL) in call order.
#pragma once
#include <cstddef>
#include <cstdlib>
extern "C" {
int vp_int(const char* name,int lo,int hi);        // any integer in [lo,hi] (symbolic)
double vp_real(const char* name);                  // any real (symbolic)
int vp_pick(const char* name,int lo,int hi);       // case split
void vp_assume(int c);
void vp_assume_nz(double x);
void vp_assert(int c,const char* msg);
void vp_assert_eq(double a,double b,const char* msg);
int vp_cfg(const char* name,int def);
void vp_cover(const char* name);
void vp_out(double x); void vp_outi(int x);
void vp_strict_div(int on);
void vp_expect_abort(int on);                      // ending by abort() is what should happen
void vp_async(int on,int budget);
void vp_race_ok(int on);
void vp_fixed(int on); int vp_fixed_checks();
void vp_threads(int n);
int vp_heap_live();
int vp_native();
int vp_concrete(int x);                            // case split on the value of x
void vp_freeze(const void* p,int on);              // make an allocation read-only
int vp_eq_bits(const double* a,const double* b,size_t n);
void vp_write_file(const char* name); // native: writes the lines to a file
void vp_clear_file(); // starts a new text
void vp_line(); void vp_tok_s(const char*); void vp_tok_i(int); void vp_tok_r(double);
}

// the body of a harness; with cfg again, it is run that many more times, so that a later object meets what earlier
// ones (other patterns, other values) left behind
#ifndef VP_NATIVE_MAIN
void vp_body(); void vp_entry() { for(int r=0;r<=vp_cfg("again",0);r++) { vp_body(); if(r) vp_cover("again"); } }
#define vp_entry vp_body
#endif
