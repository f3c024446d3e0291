"""Random SPMD kernels, each printed twice: with the macros of the SPMD module and as the scalar program that one
element would run. src/spmd.cpp runs both on the same arrays."""
import random

INT2 = {"add": "+", "sub": "-", "mul": "*", "andb": "&", "orb": "|", "xorb": "^"}
CMP = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
ARR = {"i": ("a", "b", "x"), "u": ("c", "y"), "f": ("d", "z")}
OUT = {"i": "x", "u": "y", "f": "z"}
KT = {"i": "k_int", "u": "k_uint", "f": "k_float", "b": "k_bool"}


class Gen:
    def __init__(self, seed, bits, gpu=False):
        self.r = random.Random(seed)
        self.bits = bits
        self.gpu = gpu
        self.flt = bits > 8
        self.ct = {"i": "i%d" % bits, "u": "u%d" % bits, "f": "f%d" % bits}
        self.rt = {"i": "i%d" % bits, "u": "u%d" % bits, "f": "double", "b": "bool"}
        self.infix = bits >= 32
        self.devs = []
        self.nd = 0

    def types(self):
        return "iuf" if self.flt else "iu"

    # -- expressions: (spmd text, scalar text) ---------------------------------
    def lit(self, t):
        v = self.r.choice((0, 1, 2, 3, 5, 7, 10, 15)) if t != "i" and t != "f" else self.r.choice((0, 1, 2, 3, 5, 7, 10, -1, -2, -9))
        if t == "f" and self.bits == 16:
            return "nsimd_f32_to_f16(%d.0f)" % v, "(double)(%d)" % v
        return "%s(%d)" % (self.ct[t], v), "(%s)(%d)" % (self.rt[t], v)

    def leaf(self, t, sc):
        r = self.r
        vs = [v for v, q in sc.vars if q == t]
        k = r.random()
        if vs and k < 0.6:
            v = r.choice(vs)
            return v, v
        if sc.mem and k < 0.8:
            p = r.choice(ARR[t])
            return "k_load(%s)" % p, "ld(%s, i_)" % p
        if sc.mem and k < 0.87 and t in "iu":
            s = {"i": "s", "u": "t"}[t]
            return s, s
        if vs and k < 0.9:
            v = r.choice(vs)
            return v, v
        return self.lit(t)

    def var(self, t, sc):
        """a subexpression that is certainly a vector in SIMD kernels"""
        vs = [v for v, q in sc.vars if q == t]
        v = self.r.choice(vs)
        return v, v

    def expr(self, t, sc, depth):
        r = self.r
        if t == "b":
            return self.cond(sc, depth)
        if depth <= 0:
            return self.leaf(t, sc)
        if t == "f":
            k = r.randrange(6)
            if k == 0:
                a, b = self.var("i", sc)
                return "k_cvt(k_float, k_andb(%s, %s))" % (a, "i%d(15)" % self.bits), "(double)(%s & 15)" % b
            if k == 1:
                a, b = self.var("f", sc)
                return "k_abs(%s)" % a, "fabs(%s)" % b
            op = r.choice(("add", "sub", "min", "max", "add"))
            a, b = self.var("f", sc), self.expr("f", sc, depth - 1)
            if op in ("add", "sub"):
                # keep the values small integers so that every float format is exact
                lim = ("nsimd_f32_to_f16(60.0f)", "nsimd_f32_to_f16(-60.0f)") if self.bits == 16 else ("f%d(60)" % self.bits, "f%d(-60)" % self.bits)
                e = ("%s %s %s" % (a[0], INT2[op], b[0])) if self.infix and r.random() < 0.4 else "k_%s(%s, %s)" % (op, a[0], b[0])
                return "k_max(k_min(%s, %s), %s)" % (e, lim[0], lim[1]), "fmax(fmin(%s %s %s, 60.0), -60.0)" % (a[1], INT2[op], b[1])
            return "k_%s(%s, %s)" % (op, a[0], b[0]), "f%s(%s, %s)" % (op, a[1], b[1])
        T = self.rt[t]
        k = r.randrange(9)
        if k == 0:
            a = self.var("u" if t == "i" else "i", sc)
            return "k_reinterpret(%s, %s)" % (KT[t], a[0]), "(%s)%s" % (T, a[1])
        if k == 1:
            op = r.choice(("shl", "shr")) if t == "u" else "shl"
            a, n = self.var(t, sc), r.randrange(min(5, self.bits))
            return "k_%s(%s, %d)" % (op, a[0], n), "(%s)((%s)%s %s %d)" % (T, self.rt["u"], a[1], "<<" if op == "shl" else ">>", n)
        if k == 2:
            a, b, op = self.var(t, sc), self.expr(t, sc, depth - 1), r.choice(("min", "max"))
            return "k_%s(%s, %s)" % (op, a[0], b[0]), "(%s)(%s %s %s ? %s : %s)" % (T, a[1], "<" if op == "min" else ">", b[1], a[1], b[1])
        if k == 3 and self.flt and t == "i":
            a = self.var("f", sc)
            return "k_cvt(k_int, %s)" % a[0], "(%s)%s" % (T, a[1])
        op = r.choice(sorted(INT2))
        a, b = self.var(t, sc), self.expr(t, sc, depth - 1)
        if self.infix and r.random() < 0.4:
            if r.random() < 0.5:
                a, b = b, a
            return "(%s %s %s)" % (a[0], INT2[op], b[0]), "(%s)(%s %s %s)" % (T, a[1], INT2[op], b[1])
        return "k_%s(%s, %s)" % (op, a[0], b[0]), "(%s)(%s %s %s)" % (T, a[1], INT2[op], b[1])

    def cond(self, sc, depth):
        r = self.r
        bs = [v for v, q in sc.vars if q == "b"]
        k = r.random()
        if bs and k < 0.15:
            v = r.choice(bs)
            return v, v
        if depth > 0 and k < 0.4:
            a, b = self.cond(sc, depth - 1), self.cond(sc, depth - 1)
            op = r.choice(("andl", "orl", "xorl", "andnotl"))
            s = {"andl": "(%s && %s)", "orl": "(%s || %s)", "xorl": "(%s != %s)", "andnotl": "(%s && !%s)"}[op]
            # the functions take operands of one type: go through k_bool
            return "k_%s(k_to_bool(%s), k_to_bool(%s))" % (op, a[0], b[0]), s % (a[1], b[1])
        if depth > 0 and k < 0.5:
            a = self.cond(sc, depth - 1)
            return "k_notl(k_to_bool(%s))" % a[0], "(!%s)" % a[1]
        t = r.choice(self.types())
        a, b, op = self.var(t, sc), self.expr(t, sc, depth), r.choice(sorted(CMP))
        s = "(%s %s %s)" % (a[1], CMP[op], b[1])
        if self.infix and r.random() < 0.4:
            return "(%s %s %s)" % (a[0], CMP[op], b[0]), s
        return "k_%s(%s, %s)" % (op, a[0], b[0]), s

    # -- statements ---------------------------------------------------------------
    def block(self, sc, depth, loop, n=None):
        sp, rf = [], []
        for _ in range(n or self.r.randint(1, 3)):
            a, b = self.stmt(sc, depth, loop)
            sp += a
            rf += b
        return sp, rf

    def assign(self, sc):
        t = self.r.choice(self.types() + "b")
        vs = [v for v, q in sc.vars if q == t and v not in sc.locked]
        if not vs:
            return self.assign(sc)
        v = self.r.choice(vs)
        if t == "b" and self.r.random() < 0.25:
            l = self.r.choice(("true", "false"))
            return ["k_set(%s, %s);" % (v, l)], ["%s = %s;" % (v, l)]
        a, b = self.expr(t, sc, 2)
        return ["k_set(%s, %s);" % (v, a)], ["%s = %s;" % (v, b)]

    def stmt(self, sc, depth, loop):
        r = self.r
        k = r.random()
        if r.random() < (0.16 if loop else 0.05):
            # some elements leave the block, the others go on: what follows must only affect those
            w = r.choice(("k_break", "k_continue") if loop else ("k_return",))
            if r.random() < 0.15 and not (self.gpu and sc.ret):
                w = "k_return"
            if w != "k_return" or not (self.gpu and sc.ret):
                return self.leave(sc, {"k_break": "break", "k_continue": "continue"}.get(w, "return" + sc.ret), w)
        if depth <= 0 or k < 0.38:
            if sc.mem and r.random() < 0.25:
                t = r.choice(self.types())
                a, b = self.expr(t, sc, 2)
                return ["k_store(%s, %s);" % (OUT[t], a)], ["st(%s, i_, %s);" % (OUT[t], b)]
            return self.assign(sc)
        if k < 0.46 and loop:
            w = r.choice(("break", "continue"))
            return ["k_%s;" % w], ["%s;" % w]
        if k < 0.50 and not (self.gpu and sc.ret):
            return ["k_return;"], ["return%s;" % sc.ret]
        if k < 0.74:
            c = self.cond(sc, 2)
            sp, rf = ["k_if (%s)" % c[0]], ["if (%s) {" % c[1]]
            a, b = self.block(sc, depth - 1, loop)
            sp += a
            rf += b
            for _ in range(r.choice((0, 0, 1, 2))):
                c = self.cond(sc, 1)
                a, b = self.block(sc, depth - 1, loop)
                sp += ["k_elseif (%s)" % c[0]] + a
                rf += ["} else if (%s) {" % c[1]] + b
            if r.random() < 0.5:
                a, b = self.block(sc, depth - 1, loop)
                sp += ["k_else"] + a
                rf += ["} else {"] + b
            return sp + ["k_endif"], rf + ["}"]
        if k < 0.93 and sc.loops:
            # bounded loop: a counter of its own that nothing else writes, decremented first
            v = sc.loops[-1]
            sc.loops = sc.loops[:-1]
            sc.locked.add(v)
            m = r.choice((1, 3, 7))
            start = self.var(r.choice("i"), sc)
            sp = ["k_set(%s, k_andb(%s, i%d(%d)));" % (v, start[0], self.bits, m)]
            rf = ["%s = (i%d)(%s & %d);" % (v, self.bits, start[1], m)]
            c = ("k_gt(%s, i%d(0))" % (v, self.bits), "%s > 0" % v)
            if r.random() < 0.35:
                d = self.cond(sc, 1)
                c = ("k_andl(k_to_bool(%s), k_to_bool(%s))" % (c[0], d[0]), "%s && %s" % (c[1], d[1]))
            elif self.infix and r.random() < 0.4:
                c = ("%s > i%d(0)" % (v, self.bits), c[1])
            a, b = self.block(sc, depth - 1, True, r.randint(1, 4))
            dec = ["k_set(%s, k_sub(%s, i%d(1)));" % (v, v, self.bits)], ["%s = (i%d)(%s - 1);" % (v, self.bits, v)]
            sp += ["k_while(%s)" % c[0]] + dec[0] + a + ["k_endwhile"]
            rf += ["while (%s) {" % c[1]] + dec[1] + b + ["}"]
            return sp, rf
        if sc.mem and k < 0.97 and depth > 0:
            return self.call(sc)
        return self.assign(sc)

    def leave(self, sc, rf, sp):
        r = self.r
        c, d, e = self.cond(sc, 1), self.cond(sc, 1), self.assign(sc)
        k = r.randrange(5)
        if k == 0:
            x = ["k_if (%s)" % c[0], sp + ";", "k_endif"], ["if (%s) {" % c[1], rf + ";", "}"]
        elif k == 1:
            f = self.assign(sc)
            x = ["k_if (%s)" % c[0]] + f[0] + [sp + ";", "k_else"] + e[0] + ["k_endif"], ["if (%s) {" % c[1]] + f[1] + [rf + ";", "} else {"] + e[1] + ["}"]
        elif k == 2:
            x = ["k_if (%s)" % c[0]] + e[0] + ["k_else", sp + ";", "k_endif"], ["if (%s) {" % c[1]] + e[1] + ["} else {", rf + ";", "}"]
        elif k == 3:
            x = ["k_if (%s)" % c[0], sp + ";", "k_elseif (%s)" % d[0]] + e[0] + ["k_endif"], ["if (%s) {" % c[1], rf + ";", "} else if (%s) {" % d[1]] + e[1] + ["}"]
        else:
            x = ["k_if (%s)" % c[0], "k_if (%s)" % d[0], sp + ";", "k_endif"] + e[0] + ["k_endif"], ["if (%s) {" % c[1], "if (%s) {" % d[1], rf + ";", "}"] + e[1] + ["}"]
        f = self.assign(sc)
        return x[0] + f[0], x[1] + f[1]

    def unmasked(self, sc):
        """an unmasked store: only sound where every lane is active, that is first in a kernel"""
        t = self.r.choice(self.types())
        if self.r.random() < 0.5:
            l = self.lit(t)
            return ["k_unmasked_store(%s, %s);" % (OUT[t], l[0])], ["st(%s, i_, %s);" % (OUT[t], l[1])]
        a, b = self.var(t, sc)
        return ["k_unmasked_store(%s, %s);" % (OUT[t], a)], ["st(%s, i_, %s);" % (OUT[t], b)]

    def call(self, sc):
        n, t = "dev%d_%s" % (self.nd, self.tag), self.r.choice(self.types())
        self.nd += 1
        if self.r.random() < 0.7:
            self.devs.append(self.device(n, t))
            a, b = self.var(t, sc), self.expr(t, sc, 1)
            c = self.var(t, sc)
            v = self.r.choice([v for v, q in sc.vars if q == t and v not in sc.locked])
            # arguments of device functions are vectors
            return ["k_set(%s, spmd_call_dev_func(%s, %s, %s));" % (v, n, a[0], c[0])], ["%s = ref_%s(%s, %s);" % (v, n, a[1], c[1])]
        self.devs.append(self.device_void(n, t))
        a = self.var(t, sc)
        return ["spmd_call_dev_func(%s, %s, %s);" % (n, OUT[t], a[0])], ["ref_%s(i_, %s, %s);" % (n, OUT[t], a[1])]

    def locals(self, t0):
        vs = [("v" + q, q) for q in self.types()] + [("vb", "b")]
        loops = ["n0", "n1"]
        lits = {q: self.lit(q) for q in self.types()}
        sp = ["%s v%s; k_unmasked_set(v%s, %s);" % (KT[q], q, q, lits[q][0]) for q in self.types()] + ["k_bool vb; k_unmasked_set(vb, false);"]
        rf = ["%s v%s = %s;" % (self.rt[q], q, lits[q][1]) for q in self.types()] + ["bool vb = false;"]
        sp += ["k_int %s; k_unmasked_set(%s, i%d(0));" % (v, v, self.bits) for v in loops]
        rf += ["i%d %s = 0;" % (self.bits, v) for v in loops]
        return vs, loops, sp, rf

    def device(self, n, t):
        vs, loops, sp, rf = self.locals(t)
        sc = Scope(vs + [("p", t), ("q", t), ("ret", t)], loops, False, " ret")
        sc.locked |= {"p", "q"}
        sp.append("%s ret; k_unmasked_set(ret, p);" % KT[t])
        rf.append("%s ret = p;" % self.rt[t])
        a, b = self.block(sc, 2, False, 3)
        sc.locked.discard("ret")
        return ("spmd_dev_func(%s %s, %s p, %s q)\n  (void)q;\n  %s\n  return ret;\nspmd_dev_func_end\n" % (KT[t], n, KT[t], KT[t], "\n  ".join(sp + a)),
                "static %s ref_%s(%s p, %s q) {\n  (void)q;\n  %s\n  return ret;\n}\n" % (self.rt[t], n, self.rt[t], self.rt[t], "\n  ".join(rf + b)))

    def device_void(self, n, t):
        vs, loops, sp, rf = self.locals(t)
        sc = Scope(vs + [("p", t)], loops, False, "")
        sc.locked.add("p")
        a, b = self.block(sc, 2, False, 3)
        o = OUT[t]
        tail = ["k_store(o_, v%s);" % t], ["st(o_, i_, v%s);" % t]
        return ("spmd_dev_func(void %s, %s *o_, %s p)\n  (void)p;\n  %s\nspmd_dev_func_end\n" % (n, self.ct[t], KT[t], "\n  ".join(sp + a + tail[0])),
                "static void ref_%s(nsimd_nat i_, %s *o_, %s p) {\n  (void)p;\n  %s\n}\n" % (n, self.ct[t], self.rt[t], "\n  ".join(rf + b + tail[1])))

    def kernel(self, tag, tmpl):
        """returns (spmd text, scalar text)"""
        self.tag, self.devs, self.nd = tag, [], 0
        vs = [("v" + q + k, q) for q in self.types() + "b" for k in ("", "2")]
        loops = ["n0", "n1", "n2"]
        sp, rf = [], []
        for v, q in vs:
            if q == "b":
                sp.append("k_bool %s; k_unmasked_set(%s, false);" % (v, v))
                rf.append("bool %s = false;" % v)
            else:
                p = self.r.choice(ARR[q])
                sp.append("%s %s; k_set(%s, k_load(%s));" % (KT[q], v, v, p) if self.r.random() < 0.6 else "%s %s; k_unmasked_set(%s, k_unmasked_load(%s));" % (KT[q], v, v, p))
                rf.append("%s %s = ld(%s, i_);" % (self.rt[q], v, p))
        for v in loops:
            sp.append("k_int %s; k_unmasked_set(%s, i%d(0));" % (v, v, self.bits))
            rf.append("i%d %s = 0;" % (self.bits, v))
        sc = Scope(vs, loops, True, "")
        sp.append("(void)s; (void)t;")
        a, b = self.block(sc, 3, False, self.r.randint(3, 6))
        if self.r.random() < 0.3:
            ua, ub = self.unmasked(sc)
            a, b = ua + a, ub + b
        for t in self.types():
            v = self.r.choice([v for v, q in vs if q == t])
            if self.r.random() < 0.2:
                l = self.lit(t)
                a.append("k_if (vb) k_store(%s, %s); k_else k_store(%s, %s); k_endif" % (OUT[t], l[0], OUT[t], v))
                b.append("if (vb) st(%s, i_, %s); else st(%s, i_, %s);" % (OUT[t], l[1], OUT[t], v))
            else:
                a.append("k_store(%s, %s);" % (OUT[t], v))
                b.append("st(%s, i_, %s);" % (OUT[t], v))
        ps = ", ".join("%s *%s" % (self.ct[q], p) for q in self.types() for p in ARR[q])
        ps += ", %s s, %s t" % (self.ct["i"], self.ct["u"])
        names = ", ".join(p for q in self.types() for p in ARR[q]) + ", s, t"
        used = "".join("(void)%s; " % p for q in self.types() for p in ARR[q])
        head = "spmd_tmpl_kernel_1d(%s, Unused_, %s)" % (tag, ps) if tmpl else "spmd_kernel_1d(%s, %s)" % (tag, ps)
        txt = "".join(d[0] for d in self.devs) + head + "\n  " + used + "\n  " + "\n  ".join(sp + a) + "\nspmd_kernel_end\n"
        ref = "".join(d[1] for d in self.devs) + "static void ref_%s(nsimd_nat i_, %s) {\n  %s(void)s; (void)t;\n  %s\n}\n" % (tag, ps, used, "\n  ".join(rf + b))
        return txt, ref, ps, names


class Scope:
    def __init__(self, vs, loops, mem, ret):
        self.vars, self.loops, self.mem, self.ret, self.locked = vs, list(loops), mem, ret, set()


PRE = """#include <nsimd/modules/spmd.hpp>
#include <math.h>
static double ld(const f16 *p, nsimd_nat i) { return (double)nsimd_f16_to_f32(p[i]); }
static double ld(const f32 *p, nsimd_nat i) { return (double)p[i]; }
static double ld(const f64 *p, nsimd_nat i) { return p[i]; }
template <class T> static T ld(const T *p, nsimd_nat i) { return p[i]; }
static void st(f16 *p, nsimd_nat i, double v) { p[i] = nsimd_f32_to_f16((float)v); }
static void st(f32 *p, nsimd_nat i, double v) { p[i] = (float)v; }
static void st(f64 *p, nsimd_nat i, double v) { p[i] = v; }
template <class T, class S> static void st(T *p, nsimd_nat i, S v) { p[i] = (T)v; }
struct args { void *p[7]; long long s, t; };
"""


def unit(seed, bits, count, prefix, gpu=False):
    """one translation unit with count kernels; returns (text, [(name, run symbol, ref symbol, hash)])"""
    out, rows = [PRE], []
    for k in range(count):
        g = Gen("%s/%d/%d" % (seed, bits, k), bits, gpu)
        tag, tmpl = "%s_%d_%d" % (prefix, bits, k), k % 3 == 0
        spmd, ref, ps, names = g.kernel(tag, tmpl)
        slots = [(g.ct[q], p) for q in "iuf" for p in ARR[q]]
        order = [p for q in "iuf" for p in ARR[q]]
        cast = ", ".join("(%s *)g_->p[%d]" % (g.ct[q], order.index(p)) for q in g.types() for p in ARR[q]) + ", (%s)g_->s, (%s)g_->t" % (g.ct["i"], g.ct["u"])
        out.append(spmd)
        out.append(ref)
        u = (1, 7, 32, 64, 128, 256)[k % 6] if gpu else 1 + k % 3 if k % 3 else 4  # GPU: threads per block
        if tmpl:
            out.append("template <class Z_> static void go_%s(nsimd_nat n_, struct args *g_) { spmd_launch_tmpl_kernel_1d(%s, Z_, %d, %d, n_, %s); }\n"
                       'extern "C" void run_%s(nsimd_nat n_, struct args *g_) { go_%s<int>(n_, g_); }\n' % (tag, tag, bits, u, cast, tag, tag))
        else:
            out.append('extern "C" void run_%s(nsimd_nat n_, struct args *g_) { spmd_launch_kernel_1d(%s, %d, %d, n_, %s); }\n' % (tag, tag, bits, u, cast))
        out.append('extern "C" void refrun_%s(nsimd_nat n_, struct args *g_) { for (nsimd_nat i_ = 0; i_ < n_; i_++) ref_%s(i_, %s); }\n' % (tag, tag, cast))
        rows.append((tag, bits, u))
    txt = "\n".join(out)
    return (txt.replace("k_to_bool(", "(") if gpu else txt), rows  # host only: a no-op for one element
