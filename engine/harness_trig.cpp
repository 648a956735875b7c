// entry point for the angle tables (init_trig)
#include <stdexcept>
#include "booz_xform.hpp"
#include "init_trig.hpp"
using namespace booz_xform;
struct T { Vector theta, zeta; Matrix cosm, sinm, cosn, sinn; };
#define VEC(T,f) extern "C" double* T##_ptr_##f(T* b) { return b->f.data(); } extern "C" long T##_rows_##f(T* b) { return b->f.size(); } \
  extern "C" long T##_cols_##f(T* b) { return 1; } extern "C" void T##_resize_##f(T* b, long n, long c) { b->f.resize(n); }
#define MAT(T,f) extern "C" double* T##_ptr_##f(T* b) { return b->f.data(); } extern "C" long T##_rows_##f(T* b) { return b->f.rows(); } \
  extern "C" long T##_cols_##f(T* b) { return b->f.cols(); } extern "C" void T##_resize_##f(T* b, long n, long c) { b->f.resize(n, c); }
extern "C" T* h_tnew() { return new T; }
extern "C" void h_tzero(T* t) { t->cosm.setZero(); t->sinm.setZero(); t->cosn.setZero(); t->sinn.setZero(); }
extern "C" int h_trig(T* t, int mmax, int nmax, int nfp) {
  try { init_trig(t->theta, t->zeta, t->cosm, t->sinm, t->cosn, t->sinn, mmax, nmax, nfp); return 0; } catch (...) { return 1; }
}
VEC(T,theta) VEC(T,zeta) MAT(T,cosm) MAT(T,sinm) MAT(T,cosn) MAT(T,sinn)
