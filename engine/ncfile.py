"""minimal netCDF classic reader/writer through libnetcdf (ctypes), for replays"""
import ctypes as C, glob
def _lib():
    c = sorted(glob.glob("/usr/lib/*/libnetcdf.so*")) or ["libnetcdf.so"]
    return C.CDLL(c[0])
def _ck(r):
    if r: raise IOError("netcdf error %d" % r)
def write(path, dims, vars_):
    L = _lib()
    h = C.c_int()
    _ck(L.nc_create(path.encode(), 0, C.byref(h)))
    dn = {}
    for n, l in dims:
        d = C.c_int(); _ck(L.nc_def_dim(h, n.encode(), C.c_size_t(l), C.byref(d))); dn[n] = d.value
    ids = []
    for n, ty, ds, vals in vars_:
        v = C.c_int(); a = (C.c_int * max(len(ds), 1))(*[dn[x] for x in ds])
        _ck(L.nc_def_var(h, n.encode(), {"i": 4, "d": 6, "c": 2}[ty], len(ds), a, C.byref(v)))
        ids.append(v.value)
    _ck(L.nc_enddef(h))
    for (n, ty, ds, vals), i in zip(vars_, ids):
        if ty == "i": _ck(L.nc_put_var_int(h, i, (C.c_int * max(len(vals), 1))(*vals)))
        elif ty == "c": _ck(L.nc_put_var_text(h, i, b"1" * len(vals)))
        else: _ck(L.nc_put_var_double(h, i, (C.c_double * max(len(vals), 1))(*vals)))
    _ck(L.nc_close(h))
def read(path):
    L = _lib()
    h = C.c_int()
    if L.nc_open(path.encode(), 0, C.byref(h)): return None
    nd, nv, ng, u = C.c_int(), C.c_int(), C.c_int(), C.c_int()
    L.nc_inq(h, C.byref(nd), C.byref(nv), C.byref(ng), C.byref(u))
    dims = []
    buf = C.create_string_buffer(300)
    for i in range(nd.value):
        ln = C.c_size_t()
        L.nc_inq_dim(h, i, buf, C.byref(ln)); dims.append((buf.value.decode(), ln.value))
    out = {}
    for i in range(nv.value):
        ty, k, na = C.c_int(), C.c_int(), C.c_int()
        ds = (C.c_int * 32)()
        L.nc_inq_var(h, i, buf, C.byref(ty), C.byref(k), ds, C.byref(na))
        nm = buf.value.decode()
        dd = [dims[ds[j]] for j in range(k.value)]
        n = 1
        for _, l in dd: n *= l
        if ty.value == 4:
            a = (C.c_int * max(n, 1))(); L.nc_get_var_int(h, i, a); data = list(a)[:n]; t = "i"
        elif ty.value == 2:
            b2 = C.create_string_buffer(n + 1); L.nc_get_var_text(h, i, b2); data = b2.raw[:n].decode(errors="replace"); t = "c"
        else:
            a = (C.c_double * max(n, 1))(); L.nc_get_var_double(h, i, a); data = list(a)[:n]; t = "d"
        atts = {}
        for j in range(na.value):
            L.nc_inq_attname(h, i, j, buf); an = buf.value
            ln = C.c_size_t(); L.nc_inq_attlen(h, i, an, C.byref(ln))
            b3 = C.create_string_buffer(ln.value + 1)
            L.nc_get_att_text(h, i, an, b3); atts[an.decode()] = b3.raw[:ln.value].decode(errors="replace")
        out[nm] = dict(type=t, dims=dd, atts=atts, data=data)
    L.nc_close(h)
    return dict(dims=dims, vars=out, closed=True, mode=0)
