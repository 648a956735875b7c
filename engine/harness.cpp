// Entry points used by the symbolic executor and, compiled natively, by the replays.
// Only the public interface of Booz_xform is used.
#include <stdexcept>
#include <string>
#include "booz_xform.hpp"
using namespace booz_xform;
typedef Booz_xform B;
struct A {
  Vector iotas, phip0, chi0, pres0, phi0;
  Matrix rmnc0, rmns0, zmnc0, zmns0, lmnc0, lmns0, bmnc0, bmns0, bsubumnc0, bsubumns0, bsubvmnc0, bsubvmns0;
};
#define TRY(x) try { x; return 0; } catch (const std::exception& e) { return 1; } catch (...) { return 2; }
#define INT(T,f) extern "C" int T##_geti_##f(T* b) { return (int) b->f; } extern "C" void T##_seti_##f(T* b, int v) { b->f = v; }
#define DBL(T,f) extern "C" double T##_getd_##f(T* b) { return b->f; } extern "C" void T##_setd_##f(T* b, double v) { b->f = v; }
#define IVEC(T,f) extern "C" int* T##_ptr_##f(T* b) { return b->f.data(); } extern "C" long T##_rows_##f(T* b) { return b->f.size(); } \
  extern "C" long T##_cols_##f(T* b) { return 1; } extern "C" void T##_resize_##f(T* b, long n, long c) { b->f.resize(n); }
#define VEC(T,f) extern "C" double* T##_ptr_##f(T* b) { return b->f.data(); } extern "C" long T##_rows_##f(T* b) { return b->f.size(); } \
  extern "C" long T##_cols_##f(T* b) { return 1; } extern "C" void T##_resize_##f(T* b, long n, long c) { b->f.resize(n); }
#define MAT(T,f) extern "C" double* T##_ptr_##f(T* b) { return b->f.data(); } extern "C" long T##_rows_##f(T* b) { return b->f.rows(); } \
  extern "C" long T##_cols_##f(T* b) { return b->f.cols(); } extern "C" void T##_resize_##f(T* b, long n, long c) { b->f.resize(n, c); }

extern "C" B* h_new() { return new B; }
extern "C" void h_delete(B* b) { delete b; }
extern "C" A* h_anew() { return new A; }
extern "C" void h_adelete(A* a) { delete a; }
extern "C" int h_run(B* b) { TRY(b->run()) }
extern "C" int h_init(B* b) { TRY(b->init()) }
extern "C" int h_import(B* b, A* a, int ns) {
  TRY(b->init_from_vmec(ns, a->iotas, a->rmnc0, a->rmns0, a->zmnc0, a->zmns0, a->lmnc0, a->lmns0, a->bmnc0, a->bmns0,
			a->bsubumnc0, a->bsubumns0, a->bsubvmnc0, a->bsubvmns0))
}
extern "C" int h_import_flux(B* b, A* a, int ns) {
  TRY(b->init_from_vmec(ns, a->iotas, a->rmnc0, a->rmns0, a->zmnc0, a->zmns0, a->lmnc0, a->lmns0, a->bmnc0, a->bmns0,
			a->bsubumnc0, a->bsubumns0, a->bsubvmnc0, a->bsubvmns0, a->phip0, a->chi0, a->pres0, a->phi0))
}
extern "C" int h_read_wout(B* b, const char* f, int flux) { TRY(b->read_wout(f, flux != 0)) }
extern "C" int h_read_wout1(B* b, const char* f) { TRY(b->read_wout(f)) }
extern "C" int h_read_boozmn(B* b, const char* f) { TRY(b->read_boozmn(f)) }
extern "C" int h_write_boozmn(B* b, const char* f) { TRY(b->write_boozmn(f)) }
extern "C" int h_driver(int argc, char** argv) { try { int r = driver(argc, argv); return r == 0 ? 0 : 100 + r; } catch (const std::exception& e) { return 1; } catch (...) { return 2; } }

INT(B,verbose) INT(B,asym) INT(B,nfp) INT(B,mpol) INT(B,ntor) INT(B,mnmax) INT(B,mpol_nyq) INT(B,ntor_nyq) INT(B,mnmax_nyq)
INT(B,ns_in) INT(B,mboz) INT(B,nboz) INT(B,ns_b) INT(B,mnboz)
DBL(B,aspect) DBL(B,toroidal_flux)
IVEC(B,xm) IVEC(B,xn) IVEC(B,xm_nyq) IVEC(B,xn_nyq) IVEC(B,compute_surfs) IVEC(B,xm_b) IVEC(B,xn_b)
VEC(B,s_in) VEC(B,iota) VEC(B,s_b) VEC(B,Boozer_G) VEC(B,Boozer_G_all) VEC(B,Boozer_I) VEC(B,Boozer_I_all) VEC(B,phi) VEC(B,phip) VEC(B,chi) VEC(B,pres)
MAT(B,rmnc) MAT(B,rmns) MAT(B,zmnc) MAT(B,zmns) MAT(B,lmnc) MAT(B,lmns) MAT(B,bmnc) MAT(B,bmns) MAT(B,bsubumnc) MAT(B,bsubumns) MAT(B,bsubvmnc) MAT(B,bsubvmns)
MAT(B,bmnc_b) MAT(B,bmns_b) MAT(B,gmnc_b) MAT(B,gmns_b) MAT(B,rmnc_b) MAT(B,rmns_b) MAT(B,zmnc_b) MAT(B,zmns_b) MAT(B,numnc_b) MAT(B,numns_b)
VEC(A,iotas) VEC(A,phip0) VEC(A,chi0) VEC(A,pres0) VEC(A,phi0)
MAT(A,rmnc0) MAT(A,rmns0) MAT(A,zmnc0) MAT(A,zmns0) MAT(A,lmnc0) MAT(A,lmns0) MAT(A,bmnc0) MAT(A,bmns0)
MAT(A,bsubumnc0) MAT(A,bsubumns0) MAT(A,bsubvmnc0) MAT(A,bsubvmns0)
