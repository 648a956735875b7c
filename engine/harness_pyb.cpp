// Python's side of the extension module: calls with positional and named arguments, attributes.
#include <pybind11/pybind11.h>
#include "booz_xform.hpp"
namespace pybind11 { Table table; }
using namespace pybind11;
extern "C" {
Value* pv_new() { return new Value; }
void pv_del(Value* v) { delete v; }
void pv_int(Value* v, long i) { v->kind = INT; v->i = i; }
void pv_bool(Value* v, int i) { v->kind = BOOL; v->i = i; }
void pv_dbl(Value* v, double d) { v->kind = FLOAT; v->d = d; }
void pv_str(Value* v, const char* s) { v->kind = STR; v->s = s; }
int* pv_iarray(Value* v, int ndim, long r, long c) { v->kind = IARRAY; v->ndim = ndim; v->ia.resize(r, c); return v->ia.data(); }
double* pv_darray(Value* v, int ndim, long r, long c) { v->kind = FARRAY; v->ndim = ndim; v->da.resize(r, c); return v->da.data(); }
int pv_kind(Value* v) { return v->kind; }
int pv_ndim(Value* v) { return v->ndim; }
long pv_geti(Value* v) { return v->i; }
double pv_getd(Value* v) { return v->d; }
const char* pv_gets(Value* v) { return v->s.c_str(); }
long pv_rows(Value* v) { return v->kind == IARRAY ? v->ia.rows() : v->da.rows(); }
long pv_cols(Value* v) { return v->kind == IARRAY ? v->ia.cols() : v->da.cols(); }
int* pv_ip(Value* v) { return v->ia.data(); }
double* pv_dp(Value* v) { return v->da.data(); }
int h_omp_max_threads() { return booz_xform::omp_max_threads(); }

// 0 done, 1 or 2 exception of the C++ code, 3 no overload takes these arguments, 4 no such name
int pyb_call(const char* cls, const char* name, void* self, int npos, Value** pos, int nkw, const char** kw, Value** kv, Value* ret, void** made) {
  int found = 0;
  for (int k = 0; k < table.n; k++) {
    Entry& e = table.e[k];
    if (e.kind == PROPERTY || strcmp(e.cls, cls) || strcmp(e.name, name)) continue;
    found = 1;
    Value* a[40];
    int n = e.nargs, used = 0, ok = npos <= n;
    for (int i = 0; ok && i < n; i++) {
      if (i < npos) { a[i] = pos[i]; continue; }
      a[i] = 0;
      if (i < e.nnamed) for (int j = 0; j < nkw; j++) if (!strcmp(kw[j], e.argname[i])) { a[i] = kv[j]; used++; }
      if (!a[i] && i < e.nnamed) a[i] = e.def[i];
      if (!a[i]) ok = 0;
    }
    if (!ok || used != nkw) continue;
    int r = e.call(&e, self, a, ret);
    if (r == 3) continue;
    if (!r && e.kind == INIT) *made = e.make;
    return r;
  }
  return found ? 3 : 4;
}
static Entry* prop(const char* cls, const char* name) {
  Entry* r = 0;
  for (int k = 0; k < table.n; k++) if (!strcmp(table.e[k].cls, cls) && !strcmp(table.e[k].name, name)) r = &table.e[k];
  return r && r->kind == PROPERTY ? r : 0;
}
int pyb_get(const char* cls, const char* name, void* self, Value* ret) { Entry* e = prop(cls, name); return e ? e->get(e, self, 0, ret) : 4; }
int pyb_set(const char* cls, const char* name, void* self, Value* v) { Entry* e = prop(cls, name); Value r; return e ? e->set ? e->set(e, self, &v, &r) : 5 : 4; }
Value* pyb_attr(const char* name) { Value* r = 0; for (int k = 0; k < table.nattr; k++) if (!strcmp(table.attrname[k], name)) r = table.attr[k]; return r; }
}
