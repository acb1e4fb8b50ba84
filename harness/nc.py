"""NetCDF files for the harness: contents as values, and a writer for all formats.

Files written by the library are read with scipy's pure Python reader, not with
the library that wrote them; other formats with libnetcdf through ctypes.
"""
import ctypes, ctypes.util, os
import numpy as np
from rec import rvec

def _magic(f):
    try:
        with open(f, 'rb') as h:
            return h.read(8)
    except OSError:
        return None

NONE = {'format': 'none', 'dims': {'none': 0}, 'vars': {'none': {'t': 'none', 'dims': [], 'v': []}}}

def _val(t, a):
    if t == 'char':
        return a.tobytes().decode('latin-1').rstrip('\0') if isinstance(a, np.ndarray) else str(a)
    if t in ('double', 'float'):
        return rvec(a)
    return [int(x) for x in np.asarray(a).ravel()]

def content(f):
    d = os.path.dirname(f)
    if os.path.isdir(f) or (d and not os.path.isdir(d)):
        return dict(NONE, format='blocked')
    m = _magic(f)
    if m is None:
        return NONE
    try:
        if m[:4] in (b'CDF\x01', b'CDF\x02'):
            return _classic(f, 'classic' if m[3] == 1 else 'offset64')
        if m[:4] == b'CDF\x05' or m[1:4] == b'HDF':
            return _generic(f, 'data64' if m[3] == 5 else None)
    except Exception as e:
        return dict(NONE, format='broken', why=repr(e)[:200])
    return dict(NONE, format='broken', why='magic')

def _classic(f, fmt):
    from scipy.io import netcdf_file
    import warnings
    names = {'d': 'double', 'f': 'float', 'i': 'int', 'h': 'short', 'b': 'byte', 'c': 'char', 'S': 'char'}
    size = os.path.getsize(f)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        nc = netcdf_file(f, 'r', mmap=False)
        dims = {d: (int(n) if n is not None else int(nc._recs)) for d, n in nc.dimensions.items()}
        out = {}
        for k, v in nc.variables.items():
            t = names[v.typecode()]
            want = int(np.prod([dims[d] for d in v.dimensions])) if v.dimensions else 1
            data = np.asarray(v.data)
            if data.size != want:
                raise ValueError('short variable ' + k)
            out[k] = {'t': t, 'dims': list(v.dimensions), 'v': _val(t, data)}
        nc.close()
    return {'format': fmt, 'dims': dims or {'none': 0}, 'vars': out or NONE['vars']}

# ---------------------------------------------------------------- libnetcdf
_lib = None
def lib():
    global _lib
    if _lib is None:
        for n in ('libnetcdf.so.19', 'libnetcdf.so', ctypes.util.find_library('netcdf')):
            try:
                _lib = ctypes.CDLL(n)
                break
            except (OSError, TypeError):
                pass
    return _lib

TYPES = {'byte': (1, 'i1'), 'char': (2, 'S1'), 'short': (3, 'i2'), 'int': (4, 'i4'), 'float': (5, 'f4'), 'double': (6, 'f8'),
         'ubyte': (7, 'u1'), 'ushort': (8, 'u2'), 'uint': (9, 'u4'), 'int64': (10, 'i8')}
FORMATS = {'classic': 0, 'offset64': 0x200, 'data64': 0x20, 'netcdf4': 0x1000, 'netcdf4classic': 0x1100}

def _ok(r):
    if r:
        L = lib(); L.nc_strerror.restype = ctypes.c_char_p
        raise RuntimeError(L.nc_strerror(r).decode())

def write(f, fmt, dims, variables):
    """variables: list of (name, type, dim names, numpy array)."""
    L = lib()
    ncid = ctypes.c_int()
    if os.path.isfile(f): os.remove(f)     # always a new file, also if some reader has not closed the old one
    _ok(L.nc_create(f.encode(), FORMATS[fmt], ctypes.byref(ncid)))
    ids, vids = {}, []
    for d, n in dims.items():
        i = ctypes.c_int()
        _ok(L.nc_def_dim(ncid, d.encode(), ctypes.c_size_t(n), ctypes.byref(i)))
        ids[d] = i.value
    for name, t, dd, a in variables:
        i = ctypes.c_int()
        arr = (ctypes.c_int * max(1, len(dd)))(*[ids[d] for d in dd])
        _ok(L.nc_def_var(ncid, name.encode(), TYPES[t][0], len(dd), arr, ctypes.byref(i)))
        vids.append(i.value)
    _ok(L.nc_enddef(ncid))
    for i, (name, t, dd, a) in zip(vids, variables):
        a = np.ascontiguousarray(np.asarray(a, dtype=TYPES[t][1]))
        if a.size:
            _ok(L.nc_put_var(ncid, i, a.ctypes.data_as(ctypes.c_void_p)))
    _ok(L.nc_close(ncid))

def _generic(f, fmt):
    L = lib()
    ncid = ctypes.c_int()
    _ok(L.nc_open(f.encode(), 0, ctypes.byref(ncid)))
    try:
        if fmt is None:
            k = ctypes.c_int()
            _ok(L.nc_inq_format(ncid, ctypes.byref(k)))
            fmt = {3: 'netcdf4', 4: 'netcdf4classic'}.get(k.value, 'other')
        nd, nv = ctypes.c_int(), ctypes.c_int()
        _ok(L.nc_inq(ncid, ctypes.byref(nd), ctypes.byref(nv), None, None))
        dims, dn = {}, []
        for i in range(nd.value):
            name = ctypes.create_string_buffer(257); n = ctypes.c_size_t()
            _ok(L.nc_inq_dim(ncid, i, name, ctypes.byref(n)))
            dims[name.value.decode()] = n.value; dn.append(name.value.decode())
        byid = {v[0]: (k, v[1]) for k, v in TYPES.items()}
        out = {}
        for i in range(nv.value):
            name = ctypes.create_string_buffer(257); t = ctypes.c_int(); k = ctypes.c_int(); ii = (ctypes.c_int * 32)()
            _ok(L.nc_inq_var(ncid, i, name, ctypes.byref(t), ctypes.byref(k), ii, None))
            dd = [dn[ii[j]] for j in range(k.value)]
            tn, dt = byid[t.value]
            a = np.zeros([dims[d] for d in dd], dtype=dt)
            if a.size:
                _ok(L.nc_get_var(ncid, i, a.ctypes.data_as(ctypes.c_void_p)))
            out[name.value.decode()] = {'t': tn, 'dims': dd, 'v': _val(tn, a)}
    finally:
        L.nc_close(ncid)
    return {'format': fmt, 'dims': dims or {'none': 0}, 'vars': out or NONE['vars']}
