"""Generates, from the operator signatures of lib/ops.json, translation units that call every operator through
the C++ base API (the reference) and through each C surface; src/csurf.cpp compares what they return."""
import json
import os

OPS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ops.json")))
LOW = {"cpu": None, "sse2": "cpu", "sse42": "sse2", "avx": "sse42", "avx2": "sse42", "avx512_knl": "avx2", "avx512_skylake": "avx2"}
LOWTYPES = ("f16", "f64", "i16", "u32")
CIO = """#include <stdio.h>
struct io { const void *in[4]; void *mem; int p[2]; void *out; int *pout; };
#ifdef __cplusplus
extern "C" {
#endif
FILE *vf_open(struct io *, int full);
void vf_close(FILE *);
void vf_put_ref(struct io *, const char *fmt, const char *t, int n, int mode);
#ifdef __cplusplus
}
#endif
"""


def outs(typ, k):
    n = typ[1:]
    if k == 1:
        return [c + n for c in ("iu" if n == "8" else "iuf")]
    if k == 2:
        return [c + str(int(n) * 2) for c in "iuf"]
    if k == 3:
        m = str(int(n) // 2)
        return [c + m for c in ("iu" if m == "8" else "iuf")]
    return [typ]


def instances():
    """(op, typ, to) for every operator"""
    for name, o in OPS.items():
        for t in o["types"]:
            if o["closed"]:
                yield name, o, t, t
            else:
                for to in outs(t, o["out"]):
                    yield name, o, t, to


def ityp(t):
    return "i" + t[1:]


class Ent:
    def __init__(self, op, o, t, to, ext):
        self.op, self.o, self.t, self.to, self.ext = op, o, t, to, ext
        self.args = o["params"][1:]
        self.ret = o["params"][0]


def args(e, load, loadl, loadi):
    r, k, p = [], 0, 0
    for a in e.args:
        if a == "v":
            r.append(load(e.t, k))
        elif a == "l":
            r.append(loadl(e.t, k))
        elif a == "vi":
            r.append(loadi(ityp(e.t), k))
        elif a == "c*":
            r.append("(const %s *)x->mem" % e.t)
        elif a == "*":
            r.append("(%s *)x->mem" % e.t)
        elif a == "p":
            r.append("x->p[%d]" % p)
            p += 1
            continue
        elif a == "s":
            r.append("*(const %s *)x->in[%d]" % (e.t, k))
        else:
            raise ValueError(a)
        if a in ("v", "l", "vi", "s"):
            k += 1
    return r


# ---- C base functions -------------------------------------------------------
def c_load(ext):
    return (lambda t, k: "nsimd_loadu_%s_%s((const %s *)x->in[%d])" % (ext, t, t, k),
            lambda t, k: "nsimd_loadlu_%s_%s((const %s *)x->in[%d])" % (ext, t, t, k))


def c_body(e, call, ext):
    """statements that evaluate call and deliver its result"""
    r, to = e.ret, e.to
    if r == "_":
        return call + ";"
    if r == "p":
        return "*x->pout = %s;" % call
    if r == "s":
        return "*(%s *)x->out = %s;" % (e.t, call)
    if r == "v":
        return "nsimd_storeu_%s_%s((%s *)x->out, %s);" % (ext, to, to, call)
    if r == "l":
        return "nsimd_storelu_%s_%s((%s *)x->out, %s);" % (ext, to, to, call)
    d = int(r[2])
    return "{ nsimd_%s_v%sx%d r = %s; %s }" % (
        ext, to, d, call, " ".join("nsimd_storeu_%s_%s((%s *)x->out + %d * nsimd_len_%s_%s(), r.v%d);" % (ext, to, to, i, ext, to, i) for i in range(d)))


def s_base(e):
    ld, ll = c_load(e.ext)
    suf = e.t if e.o["closed"] else "%s_%s" % (e.to, e.t)
    return c_body(e, "nsimd_%s_%s_%s(%s)" % (e.op, e.ext, suf, ", ".join(args(e, ld, ll, ld))), e.ext)


def s_macro(e, ext_form):
    ld, ll = c_load(e.ext)
    a = args(e, ld, ll, ld) + ([e.t] if e.o["closed"] else [e.t, e.to])
    if ext_form:
        a.append(e.ext)
    return c_body(e, "v%s%s(%s)" % (e.op, "_e" if ext_form else "", ", ".join(a)), e.ext)


def s_c11(e, named):
    """C11 generic selection; named: types with the extension in their name"""
    sx = "_" + e.ext if named else ""
    ld = lambda t, k: "nsimd_loadu(nsimd_pack_%s%s, (const %s *)x->in[%d])" % (t, sx, t, k)
    ll = lambda t, k: "nsimd_loadlu(nsimd_packl_%s%s, (const %s *)x->in[%d])" % (t, sx, t, k)
    a = args(e, ld, ll, ld)
    pk = {"v": "nsimd_pack_", "l": "nsimd_packl_", "vx2": "nsimd_packx2_", "vx3": "nsimd_packx3_", "vx4": "nsimd_packx4_"}
    disc = any(p in ("v", "l", "vx2", "vx3", "vx4") for p in e.args)
    if e.op == "len":
        a = ["nsimd_pack_" + e.t + sx]
    elif not disc or not e.o["closed"]:
        a = [pk[e.ret] + e.to + sx] + a
    call = "nsimd_%s(%s)" % (e.op, ", ".join(a))
    r, to = e.ret, e.to
    if r == "_":
        return call + ";"
    if r == "p":
        return "*x->pout = %s;" % call
    if r == "s":
        return "*(%s *)x->out = %s;" % (e.t, call)
    if r in ("v", "l"):
        return "{ %s%s%s r = %s; nsimd_store%su((%s *)x->out, r); }" % (pk[r], to, sx, call, "l" if r == "l" else "", to)
    d = int(r[2])
    return "{ %s%s%s r = %s; %s }" % (pk[r], to, sx, call, " ".join(
        "nsimd_storeu((%s *)x->out + %d * nsimd_len(nsimd_pack_%s%s), r.v%d);" % (to, i, to, sx, i) for i in range(d)))


# ---- C++ base functions -----------------------------------------------------
def s_cxx(e, with_ext):
    E = ", nsimd::%s()" % e.ext if with_ext else ""
    ld = lambda t, k: "nsimd::loadu((const %s *)x->in[%d], %s()%s)" % (t, k, t, E)
    ll = lambda t, k: "nsimd::loadlu((const %s *)x->in[%d], %s()%s)" % (t, k, t, E)
    a = args(e, ld, ll, ld)
    if e.op == "if_else1":
        call = "nsimd::if_else1(%s, %s()%s)" % (", ".join(a), e.t, E)
    else:
        call = "nsimd::%s(%s%s)" % (e.op, ", ".join(a + [e.t + "()"] + ([] if e.o["closed"] else [e.to + "()"])), E)
    r, to = e.ret, e.to
    if r == "_":
        return call + ";"
    if r == "p":
        return "*x->pout = %s;" % call
    if r == "s":
        return "*(%s *)x->out = %s;" % (e.t, call)
    if r in ("v", "l"):
        return "nsimd::store%su((%s *)x->out, %s, %s()%s);" % ("l" if r == "l" else "", to, call, to, E)
    d = int(r[2])
    return "{ nsimd_%s_v%sx%d r = %s; %s }" % (e.ext, to, d, call, " ".join(
        "nsimd::storeu((%s *)x->out + %d * nsimd::len(%s()%s), r.v%d, %s()%s);" % (to, i, to, E, i, to, E) for i in range(d)))


# ---- scalars ----------------------------------------------------------------
INTRES = ("eq", "ne", "lt", "le", "gt", "ge", "to_logical")
LOGI = ("andl", "orl", "xorl", "andnotl", "notl")


def scalar_inst():
    for name, o in OPS.items():
        if not o["scalar"]:
            continue
        if name in LOGI:
            yield name, o, "i32", "i32"
            continue
        for t in o["types"]:
            for to in (outs(t, o["out"]) if not o["closed"] else [t]):
                yield name, o, t, to


def s_scal(op, o, t, to, cxx):
    a, k, p = [], 0, 0
    for q in o["params"][1:]:
        if q == "v":
            a.append("((const %s *)x->in[%d])[i]" % (t, k)); k += 1
        elif q == "l":
            a.append("(int)(((const unsigned char *)x->in[%d])[i * sizeof(%s)] & 1)" % (k, t)); k += 1
        elif q == "p":
            a.append("x->p[%d]" % p); p += 1
        else:
            return None
    res = "int" if (op in INTRES or op in LOGI) else to
    if cxx:
        if op == "to_mask":
            a = [t + "()"] + a
        if not o["closed"]:
            a = [to + "()"] + a
        call = "nsimd::scalar_%s(%s)" % (op, ", ".join(a))
    else:
        suf = "" if op in LOGI else ("_" + t if o["closed"] else "_%s_%s" % (to, t))
        call = "nsimd_scalar_%s%s(%s)" % (op, suf, ", ".join(a))
    return "{ int i; for (i = 0; i < 16; i++) ((%s *)x->out)[i] = %s; }" % (res, call)


# ---- parametrised loads and stores, vif_else, typedefs, put ------------------
ALL = ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f16", "f32", "f64")


def split_mem(op):
    """loada -> (load, a); store2u -> (store2, u); loadla -> (loadl, a)"""
    for b in ("load", "load2", "load3", "load4", "loadl", "store", "store2", "store3", "store4", "storel"):
        if op in (b + "a", b + "u"):
            return b, op[-1]
    return None


def mem_forms(e, main):
    """extra surfaces of the plain loads and stores: (C++ bodies, C bodies, C11 bodies)"""
    b, al = split_mem(e.op)
    tag = "nsimd::aligned()" if al == "a" else "nsimd::unaligned()"
    E, T = "nsimd::%s()" % e.ext, e.t
    ld = lambda t, k: "nsimd::loadu((const %s *)x->in[%d], %s(), %s)" % (t, k, t, E)
    ll = lambda t, k: "nsimd::loadlu((const %s *)x->in[%d], %s(), %s)" % (t, k, t, E)
    a = args(e, ld, ll, ld)

    def cxx(call):
        if e.ret == "_":
            return call + ";"
        if e.ret in "vl":
            return "nsimd::store%su((%s *)x->out, %s, %s(), %s);" % ("l" if e.ret == "l" else "", T, call, T, E)
        d = int(e.ret[2])
        return "{ nsimd_%s_v%sx%d r = %s; %s }" % (e.ext, T, d, call, " ".join(
            "nsimd::storeu((%s *)x->out + %d * nsimd::len(%s(), %s), r.v%d, %s(), %s);" % (T, i, T, E, i, T, E) for i in range(d)))
    cx = {"cxx-tagged-ext": cxx("nsimd::%s(%s, %s(), %s, %s)" % (b, ", ".join(a), T, E, tag))}
    if main:
        cx["cxx-tagged"] = cxx("nsimd::%s(%s, %s(), %s)" % (b, ", ".join(a), T, tag))
    cl, cll = c_load(e.ext)
    a = args(e, cl, cll, cl)
    cb = {"c-v%s_e" % b: c_body(e, "v%s_e(%s, %s, %s, %s)" % (b, ", ".join(a), T, e.ext, al), e.ext)}
    if main:
        cb["c-v%s" % b] = c_body(e, "v%s(%s, %s, %s)" % (b, ", ".join(a), T, al), e.ext)
    c11 = {}
    w_ = "aligned" if al == "a" else "unaligned"
    for sx in (["", "_" + e.ext] if main else ["_" + e.ext]):
        pk = "nsimd_pack_%s%s" % (T, sx)
        if b == "load":
            c11["c11-load" + ("-named" if sx else "")] = "{ %s r = nsimd_load(%s, %s, (const %s *)x->mem); nsimd_storeu((%s *)x->out, r); }" % (pk, w_, pk, T, T)
        elif b == "store":
            c11["c11-store" + ("-named" if sx else "")] = "{ %s r = nsimd_loadu(%s, (const %s *)x->in[0]); nsimd_store(%s, (%s *)x->mem, r); }" % (pk, pk, T, w_, T)
    return cx, cb, c11


def hand(ext, main):
    """(key suffix, op, T, sig, C++ bodies, C bodies, C11 bodies), first C++ body is the reference"""
    E = "nsimd::%s()" % ext
    for T in ALL:
        w_ = T[1:]
        # if_else with a mask of another type of the same width
        for L in ("i" + w_, "u" + w_) + (("f" + w_,) if w_ != "8" else ()):
            m = "(const %s *)x->in[0]" % L
            a1, a2 = "(const %s *)x->in[1]" % T, "(const %s *)x->in[2]" % T
            ref = "nsimd::storeu((%s *)x->out, nsimd::if_else1(nsimd::reinterpretl(nsimd::loadlu(%s, %s(), %s), %s(), %s(), %s), nsimd::loadu(%s, %s(), %s), nsimd::loadu(%s, %s(), %s), %s(), %s), %s(), %s);" % (
                T, m, L, E, L, T, E, a1, T, E, a2, T, E, T, E, T, E)
            cx = {"cxx": ref, "cxx-if_else-ext": "nsimd::storeu((%s *)x->out, nsimd::if_else(nsimd::loadlu(%s, %s(), %s), nsimd::loadu(%s, %s(), %s), nsimd::loadu(%s, %s(), %s), %s(), %s(), %s), %s(), %s);" % (
                T, m, L, E, a1, T, E, a2, T, E, L, T, E, T, E)}
            ca = "nsimd_loadlu_%s_%s(%s), nsimd_loadu_%s_%s(%s), nsimd_loadu_%s_%s(%s)" % (ext, L, m, ext, T, a1, ext, T, a2)
            st = "nsimd_storeu_%s_%s((%s *)x->out, %%s);" % (ext, T, T)
            cb = {"c-vif_else_e": st % ("vif_else_e(%s, %s, %s, %s)" % (ca, L, T, ext))}
            if main:
                cx["cxx-if_else"] = "nsimd::storeu((%s *)x->out, nsimd::if_else(nsimd::loadlu(%s, %s()), nsimd::loadu(%s, %s()), nsimd::loadu(%s, %s()), %s(), %s()), %s());" % (T, m, L, a1, T, a2, T, L, T, T)
                cb["c-vif_else"] = st % ("vif_else(%s, %s, %s)" % (ca, L, T))
            yield "if_else/%s-%s" % (T, L), "if_else", T, "v,l,v,v", cx, cb, {}
        # register typedefs
        ld4 = "{ nsimd_%s_v%sx4 r = nsimd::load4u((const %s *)x->mem, %s(), %s); " % (ext, T, T, T, E)
        n = "nsimd::len(%s(), %s)" % (T, E)
        out4 = " ".join("nsimd::storeu((%s *)x->out + %d * %s, r.v%d, %s(), %s);" % (T, i, n, i, T, E) for i in range(4))
        cx = {"cxx": ld4 + out4 + " }"}
        cn = "nsimd_len_%s_%s()" % (ext, T)
        cs = lambda v: " ".join("nsimd_storeu_%s_%s((%s *)x->out + %d * %s, %s);" % (ext, T, T, i, cn, q) for i, q in enumerate(v))
        cb, c11 = {}, {}
        if main:
            cb["c-typedefs"] = "{ vecx4(%s) r = vload4u((const %s *)x->mem, %s); v%sx4 s = r; vec(%s) a = s.v0; vec_a(%s, %s) b = s.v1; v%s c = s.v2; vecl(%s) l = vloadlu((const %s *)x->mem, %s); vecl_a(%s, %s) m = l; vl%s k = m; (void)k; %s }" % (
                T, T, T, T, T, T, ext, T, T, T, T, T, ext, T, cs(("a", "b", "c", "s.v3")))
            cb["c-typedefs-23"] = "{ vecx2(%s) p = vload2u((const %s *)x->mem, %s); v%sx2 q = p; vecx3(%s) t = vload3u((const %s *)x->mem, %s); v%sx3 u = t; v%sx4 r = vload4u((const %s *)x->mem, %s); (void)q; (void)u; %s }" % (
                T, T, T, T, T, T, T, T, T, T, T, cs(("r.v0", "r.v1", "r.v2", "r.v3")))
            c11["c11-pack"] = "{ nsimd_packx4(%s) r = nsimd_load4u(nsimd_packx4(%s), (const %s *)x->mem); nsimd_packx2(%s) p = nsimd_load2u(nsimd_packx2(%s), (const %s *)x->mem); nsimd_packx3(%s) q = nsimd_load3u(nsimd_packx3(%s), (const %s *)x->mem); nsimd_pack(%s) a = nsimd_loadu(nsimd_pack(%s), (const %s *)x->mem); nsimd_packl(%s) l = nsimd_loadlu(nsimd_packl(%s), (const %s *)x->mem); (void)p; (void)q; (void)a; (void)l; %s }" % (
                (T,) * 15 + (" ".join("nsimd_storeu((%s *)x->out + %d * nsimd_len(nsimd_pack(%s)), r.v%d);" % (T, i, T, i) for i in range(4)),))
        A = "%s, %s" % (T, ext)
        c11["c11-pack_a"] = "{ nsimd_packx4_a(%s) r = nsimd_load4u(nsimd_packx4_a(%s), (const %s *)x->mem); nsimd_packx2_a(%s) p = nsimd_load2u(nsimd_packx2_a(%s), (const %s *)x->mem); nsimd_packx3_a(%s) q = nsimd_load3u(nsimd_packx3_a(%s), (const %s *)x->mem); nsimd_pack_a(%s) a = nsimd_loadu(nsimd_pack_a(%s), (const %s *)x->mem); nsimd_packl_a(%s) l = nsimd_loadlu(nsimd_packl_a(%s), (const %s *)x->mem); (void)p; (void)q; (void)a; (void)l; %s }" % (
            A, A, T, A, A, T, A, A, T, A, A, T, A, A, T, " ".join("nsimd_storeu((%s *)x->out + %d * nsimd_len(nsimd_pack_a(%s)), r.v%d);" % (T, i, A, i) for i in range(4)))
        yield "typedefs/" + T, "load4u", T, "vx4,c*", cx, cb, c11
        # put: text written, value returned, failure reported
        conv = {"i": "%d", "u": "%u", "f": "%e"}[T[0]] if w_ != "64" or T[0] == "f" else {"i": "%lld", "u": "%llu"}[T[0]]
        ct = {"%d": "int", "%u": "unsigned int", "%e": "double", "%lld": "long long", "%llu": "unsigned long long"}[conv]
        for mask in (0, 1):
            for fi, fmt in enumerate(("NULL", '"<%%+9%s>"' % conv[1:].replace("e", ".17g") if T[0] != "u" else '"<%%#9%sx>"' % conv[1:-1], None)):
                full = fmt is None
                if full:
                    fmt = "NULL"
                ref = "vf_put_ref(x, %s, \"%s\", nsimd::len(%s(), %s), %d);" % ("NULL" if fmt == "NULL" else fmt, T, T, E, 2 if full else mask)
                o = "FILE *f = vf_open(x, %d); " % full
                cl = "vf_close(f);"
                l = "l" if mask else ""
                cx = {"cxx": ref, "cxx-put": "{ %s*x->pout = nsimd::put%s(f, %s, nsimd::load%su((const %s *)x->in[0], %s(), %s), %s(), %s); %s }" % (o, l, fmt, l, T, T, E, T, E, cl)}
                src = "nsimd_load%su_%s_%s((const %s *)x->in[0])" % (l, ext, T, T)
                cb = {"c-put": "{ %s*x->pout = nsimd_put_%s_%s%s(f, %s, %s); %s }" % (o, ext, l, T, fmt, src, cl)}
                if not mask:
                    cb["c-vput_e"] = "{ %s*x->pout = vput_e(f, %s, %s, %s, %s); %s }" % (o, fmt, src, T, ext, cl)
                if main and not mask:
                    cb["c-vput"] = "{ %s*x->pout = vput(f, %s, %s, %s); %s }" % (o, fmt, src, T, cl)
                    cx["cxx-put-default-ext"] = "{ %s*x->pout = nsimd::put(f, %s, nsimd::load%su((const %s *)x->in[0], %s()), %s()); %s }" % (o, fmt, l, T, T, T, cl)
                yield "put%s%d/%s" % (l, fi, T), "put", T, "p," + ("l" if mask else "v"), cx, cb, {}


def generate(d, ext, chunks, thorough):
    """Writes the units of one extension into directory d. Returns the list of (file, language, standard)."""
    ents = [Ent(*i, ext) for i in instances()]
    low = LOW[ext]
    if low:
        ents += [Ent(*i, low) for i in instances() if thorough or i[2] in LOWTYPES]
    files, decl, table = [], [], []
    parts = [[] for _ in range(chunks)]
    hands = list(hand(ext, True))
    if low and (thorough or ext in ("avx2", "avx512_skylake")):
        hands += [(h[0] + "@" + low,) + h[1:] for h in hand(low, False) if h[1] != "put"]  # put is declared for the build extension and cpu only
    for i, e in enumerate(ents):
        parts[i % chunks].append((i, e))
    for n, part in enumerate(parts):
        cx, cb, c11 = [], [], []
        for i, e in part:
            main = e.ext == ext
            fns = {}
            cx.append("void r%d(struct io *x) { %s }" % (i, s_cxx(e, True)))
            fns["cxx"] = "r%d" % i
            if main:
                cx.append("void q%d(struct io *x) { %s }" % (i, s_cxx(e, False)))
                fns["cxx-default-ext"] = "q%d" % i
            cb.append("void b%d(struct io *x) { %s }" % (i, s_base(e)))
            fns["c-base"] = "b%d" % i
            if main:
                cb.append("void m%d(struct io *x) { %s }" % (i, s_macro(e, False)))
                fns["c-macro"] = "m%d" % i
            cb.append("void n%d(struct io *x) { %s }" % (i, s_macro(e, True)))
            fns["c-macro_e"] = "n%d" % i
            if main:
                c11.append("void g%d(struct io *x) { %s }" % (i, s_c11(e, False)))
                fns["c11"] = "g%d" % i
            c11.append("void h%d(struct io *x) { %s }" % (i, s_c11(e, True)))
            fns["c11-named"] = "h%d" % i
            if split_mem(e.op):
                for lst, bodies, px in zip((cx, cb, c11), mem_forms(e, main), "xyz"):
                    for j, (nm, body) in enumerate(bodies.items()):
                        lst.append("void %sf%d_%d(struct io *x) { %s }" % (px, i, j, body))
                        fns[nm] = "%sf%d_%d" % (px, i, j)
            for f in fns.values():
                decl.append("void %s(struct io *);" % f)
            table.append('{"%s/%s/%s%s", "%s", "%s", "%s", %s, "%s", {%s}},' % (
                ext, e.op, e.t if e.o["closed"] else e.t + "-" + e.to, "" if main else "@" + e.ext, e.op, e.t, e.to, "nsimd_len_%s_%s" % (e.ext, e.t),
                ",".join([e.ret] + e.args), ", ".join('{"%s", %s}' % kv for kv in fns.items())))
        for i, (ks, op, t, sig, bx, bb, b11) in enumerate(hands):
            if i % chunks != n:
                continue
            fns = {}
            for lst, bodies, px in ((cx, bx, "ux"), (cb, bb, "uy"), (c11, b11, "uz")):
                for j, (nm, body) in enumerate(bodies.items()):
                    lst.append("void %s%d_%d(struct io *x) { %s }" % (px, i, j, body))
                    fns[nm] = "%s%d_%d" % (px, i, j)
            for f in fns.values():
                decl.append("void %s(struct io *);" % f)
            he = ks[ks.index("@") + 1:] if "@" in ks else ext
            table.append('{"%s/%s", "%s", "%s", "%s", %s, "%s", {%s}},' % (ext, ks, op, t, t, "nsimd_len_%s_%s" % (he, t), sig, ", ".join('{"%s", %s}' % kv for kv in fns.items())))
        hdr = "#include <string.h>\n#include <nsimd/nsimd.h>\n"
        w(d, "ref_%s_%d.cpp" % (ext, n), hdr + CIO + 'extern "C" {\n' + "\n".join(cx) + "\n}\n")
        files.append(("ref_%s_%d.cpp" % (ext, n), "c++", "c++11" if n % 2 else "c++98"))
        w(d, "cb_%s_%d.c" % (ext, n), hdr + CIO + "\n".join(cb) + "\n")
        files.append(("cb_%s_%d.c" % (ext, n), "c", ("gnu89", "c99", "c11")[n % 3]))
        w(d, "c11_%s_%d.c" % (ext, n), "#include <string.h>\n#include <nsimd/nsimd.h>\n#include <nsimd/c_adv_api.h>\n" + CIO + "\n".join(c11) + "\n")
        files.append(("c11_%s_%d.c" % (ext, n), "c", "c11"))
    cx, cs = [], []
    for i, (op, o, t, to) in enumerate(scalar_inst()):
        a, b = s_scal(op, o, t, to, True), s_scal(op, o, t, to, False)
        if a is None:
            continue
        cx.append("void sr%d(struct io *x) { %s }" % (i, a))
        cs.append("void sc%d(struct io *x) { %s }" % (i, b))
        decl.append("void sr%d(struct io *); void sc%d(struct io *);" % (i, i))
        table.append('{"%s/scalar_%s/%s", "%s", "%s", "%s", 0, "%s", {{"cxx", sr%d}, {"c-scalar", sc%d}}},' % (
            ext, op, t if o["closed"] else t + "-" + to, op, t, "i32" if op in INTRES or op in LOGI else to, ",".join(["S"] + o["params"][1:]), i, i))
    w(d, "sref_%s.cpp" % ext, "#include <nsimd/nsimd.h>\n" + CIO + 'extern "C" {\n' + "\n".join(cx) + "\n}\n")
    files.append(("sref_%s.cpp" % ext, "c++", "c++11"))
    w(d, "sc_%s.c" % ext, "#include <nsimd/nsimd.h>\n" + CIO + "\n".join(cs) + "\n")
    files.append(("sc_%s.c" % ext, "c", "c99"))
    w(d, "table_%s.inc" % ext, 'extern "C" {\n' + "\n".join(decl) + "\n}\nstatic const Row TABLE[] = {\n" + "\n".join(table) + "\n};\n")
    return files


def w(d, name, text):
    with open(os.path.join(d, name), "w") as f:
        f.write(text)
