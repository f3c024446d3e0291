"""Random TET1D assignments, each printed twice: as an array expression and as the scalar program of one element.
src/tet.cpp runs both on the same arrays. Also one assignment per function of the module (every operator, every type),
whose reference is the scalar and the pack form of the operator."""
import json
import os
import random

OPS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ops.json")))
INT2 = {"add": "+", "sub": "-", "mul": "*", "andb": "&", "orb": "|", "xorb": "^"}
CMP = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
ARR = {"i": ("a", "b"), "u": ("c", "d"), "f": ("e", "g")}


class Gen:
    def __init__(self, seed, bits):
        self.r, self.bits, self.flt = random.Random(seed), bits, bits > 8
        self.ct = {"i": "i%d" % bits, "u": "u%d" % bits, "f": "f%d" % bits}
        self.rt = {"i": "i%d" % bits, "u": "u%d" % bits, "f": "f64" if bits == 64 else "f32"}

    def types(self):
        return "iuf" if self.flt else "iu"

    def leaf(self, t):
        k = self.r.choice(ARR[t])
        return k.upper(), "ld(%s, i_)" % k

    def val(self, t):
        v = self.r.choice((0, 1, 2, 3, 5, 7, 100, 15))
        return -v if t != "u" and self.r.random() < 0.3 else v

    def wide(self, t):
        """text of a value only the element type itself holds exactly: (plain literal, literal of the element type)"""
        r, n = self.r, self.bits
        if t == "f":
            if n == 16:
                v = r.choice(("0.5", "-0.25", "13.75", "-2.5"))
                return v, "nsimd_f32_to_f16(%sf)" % v
            v = r.choice(("0.1", "-0.3", "1.0e-5", "3.14159265358979", "0.333333333333333333") + (("16777217.0", "-9007199254740991.0", "1.0e-60", "1.0e60") if n == 64 else ("16777215.0", "-0.99999994")))
            return v, "%s(%s)" % (self.ct[t], v)
        if t == "i":
            v = r.choice(((1 << (n - 1)) - 1, -(1 << (n - 1)) + 1, (1 << (n - 2)) + 1, -(1 << (n - 2)) - 3, (1 << (n - 1)) - 2 - r.randrange(1 << (n - 2))))
            s = "%d%s" % (v, "ll" if n == 64 else "")
        else:
            v = r.choice(((1 << n) - 1, (1 << (n - 1)) + 1, (1 << n) - 1 - r.randrange(1 << (n - 1)), (1 << (n - 1)) - 1))
            s = "%d%s" % (v, {64: "ull", 32: "u"}.get(n, ""))
        return s, "%s(%s)" % (self.ct[t], s)

    def typed(self, t):
        """a scalar of exactly the element type: accepted by every function"""
        if self.r.random() < 0.45:
            s, x = self.wide(t)
            return x, "%s(%s)" % (self.rt[t], s)
        v = self.val(t)
        if t == "f":
            return ("nsimd_f32_to_f16(%d.0f)" % v if self.bits == 16 else "f%d(%d)" % (self.bits, v)), "%s(%d)" % (self.rt[t], v)
        return "%s(%d)" % (self.ct[t], v), "%s(%d)" % (self.rt[t], v)

    def lit(self, t):
        """a literal of any type: accepted by infix operators"""
        if self.r.random() < 0.45:
            s, x = self.wide(t)
            return self.r.choice((s, x)), "%s(%s)" % (self.rt[t], s)
        v = self.val(t)
        k = self.r.randrange(4)
        s = ("%d" % v, "%d.0" % v, "%dl" % v, "(signed char)(%d)" % v)[k]
        return s, "%s(%d)" % (self.rt[t], v)

    def clamp(self, e):
        """keeps float values small enough for every format to be exact"""
        lo, hi = (("nsimd_f32_to_f16(-60.0f)", "nsimd_f32_to_f16(60.0f)") if self.bits == 16 else ("f%d(-60)" % self.bits, "f%d(60)" % self.bits))
        if self.bits != 16:
            return e
        return "tet1d::max(tet1d::min(%s, %s), %s)" % (e[0], hi, lo), "fmaxf(fminf(%s, 60.0f), -60.0f)" % e[1]

    def expr(self, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.leaf(t)
        T = self.rt[t]
        if t == "f":
            k = r.randrange(8)
            if k == 0:
                a = self.expr("i", d - 1)
                return "tet1d::cvt<%s>(%s & 15)" % (self.ct["f"], a[0]), "%s(%s & 15)" % (T, a[1])
            if k == 1:
                a = self.expr("f", d - 1)
                op = r.choice(("abs", "neg"))
                if op == "neg":
                    return "(-%s)" % a[0], "%s(-%s)" % (T, a[1])
                return "tet1d::abs(%s)" % a[0], "%s(fabs(%s))" % (T, a[1])
            if k == 2:
                a, b, op = self.expr("f", d - 1), self.expr("f", d - 1), r.choice(("min", "max"))
                if r.random() < 0.3:
                    b = self.typed("f")
                return "tet1d::%s(%s, %s)" % (op, a[0], b[0]), "%s(f%s(%s, %s))" % (T, op, a[1], b[1])
            if k == 3 and self.bits > 16:
                a = self.expr("f", d - 1)
                v = r.choice((2, 3, 5, 7))
                return "(%s / %d)" % (a[0], v), "%s(%s / %s(%d))" % (T, a[1], T, v)
            if k == 4:
                a = self.expr("f", d - 1)
                op = r.choice(("floor", "ceil", "trunc"))
                return "tet1d::%s(%s)" % (op, a[0]), "%s(%s((double)%s))" % (T, op, a[1])
            if k == 5 and self.bits > 16:
                a = self.expr("f", d - 1)
                return "tet1d::sqrt(tet1d::abs(%s))" % a[0], "%s(%s(%s(fabs(%s))))" % (T, "sqrt" if self.bits == 64 else "sqrtf", T, a[1])
            op = r.choice(("add", "sub") if self.bits == 16 else ("add", "sub", "mul"))
            a, b, x, y = self.bin("f", op, d)
            return self.clamp(("%s" % x, "%s(%s %s %s)" % (T, a, INT2[op], b)))
        k = r.randrange(10)
        U = self.rt["u"]
        if k == 0:
            o = "u" if t == "i" else "i"
            a = self.expr(o, d - 1)
            return "tet1d::%s<%s>(%s)" % (r.choice(("reinterpret", "cvt")), self.ct[t], a[0]), "(%s)%s" % (T, a[1])
        if k == 1:
            a, n = self.expr(t, d - 1), r.randrange(self.bits)
            op = r.choice(("shl", "shr", "shra") if t == "i" else ("shl", "shr"))
            f = {"shl": "(%s)((%s)%s << %d)" % (T, U, a[1], n), "shr": "(%s)((%s)%s >> %d)" % (T, U, a[1], n), "shra": "(%s)(%s >> %d)" % (T, a[1], n)}[op]
            if op != "shra" and r.random() < 0.5:
                return "(%s %s %d)" % (a[0], "<<" if op == "shl" else ">>", n), f
            return "tet1d::%s(%s, %d)" % (op, a[0], n), f
        if k == 2:
            a, b, op = self.expr(t, d - 1), self.expr(t, d - 1), r.choice(("min", "max"))
            if r.random() < 0.3:
                b = self.typed(t)
            return "tet1d::%s(%s, %s)" % (op, a[0], b[0]), "(%s)(%s %s %s ? %s : %s)" % (T, a[1], "<" if op == "min" else ">", b[1], a[1], b[1])
        if k == 3 and self.flt and t == "i":
            a = self.leaf("f")
            return "tet1d::cvt<%s>(%s)" % (self.ct["i"], a[0]), "(%s)%s" % (T, a[1])
        if k == 4:
            a = self.expr(t, d - 1)
            return "(~%s)" % a[0], "(%s)(~%s)" % (T, a[1])
        if k == 5:
            a, b = self.expr(t, d - 1), self.expr(t, d - 1)
            return "tet1d::andnotb(%s, %s)" % (a[0], b[0]), "(%s)(%s & ~%s)" % (T, a[1], b[1])
        if k == 6:
            a, v = self.expr(t, d - 1), r.choice((1, 2, 3, 5, 7, 10, 100))
            return "(%s / %d)" % (a[0], v), "(%s)(%s / %s(%d))" % (T, a[1], T, v)
        if k == 7:
            c = self.cond(t, d - 1)
            return "tet1d::to_mask(%s)" % c[0], "(%s)(%s ? ~%s(0) : %s(0))" % (T, c[1], T, T)
        op = r.choice(sorted(INT2))
        a, b, x, y = self.bin(t, op, d)
        return x, "(%s)(%s %s %s)" % (T, a, INT2[op], b)

    def bin(self, t, op, d):
        """(scalar a, scalar b, array text, _) of a two operand operator, function or infix, literals on either side"""
        r = self.r
        a, b = self.expr(t, d - 1), self.expr(t, d - 1)
        k = r.random()
        s = {"add": "+", "sub": "-", "mul": "*", "andb": "&", "orb": "|", "xorb": "^"}.get(op) or CMP[op]
        if k < 0.04 and op in ("add", "sub"):
            x, y = self.typed(t), self.typed(t)
            return "%s(%s + %s)" % (self.rt[t], x[1], y[1]), b[1], "tet1d::%s(tet1d::add(%s, %s), %s)" % (op, x[0], y[0], b[0]), 0
        if k < 0.2:
            a = self.typed(t)
            return a[1], b[1], "tet1d::%s(%s, %s)" % (op, a[0], b[0]), 0
        if k < 0.35:
            b = self.typed(t)
            return a[1], b[1], "tet1d::%s(%s, %s)" % (op, a[0], b[0]), 0
        if k < 0.5:
            a = self.lit(t)
        elif k < 0.65:
            b = self.lit(t)
        elif k < 0.8:
            return a[1], b[1], "tet1d::%s(%s, %s)" % (op, a[0], b[0]), 0
        return a[1], b[1], "(%s %s %s)" % (a[0], s, b[0]), 0

    def cond(self, t, d):
        r = self.r
        k = r.random()
        if d > 0 and k < 0.45:
            a, b = self.cond(t, d - 1), self.cond(t, d - 1)
            op = r.choice(("andl", "orl", "xorl", "andnotl", "&&", "||"))
            s = {"andl": "(%s && %s)", "orl": "(%s || %s)", "xorl": "(%s != %s)", "andnotl": "(%s && !%s)", "&&": "(%s && %s)", "||": "(%s || %s)"}[op]
            return ("(%s %s %s)" % (a[0], op, b[0]) if op in ("&&", "||") else "tet1d::%s(%s, %s)" % (op, a[0], b[0])), s % (a[1], b[1])
        if d > 0 and k < 0.6:
            a = self.cond(t, d - 1)
            return ("(!%s)" if r.random() < 0.5 else "tet1d::notl(%s)") % a[0], "(!%s)" % a[1]
        if k < 0.68 and t != "f":
            a = self.expr(t, d)
            return "tet1d::to_logical(%s)" % a[0], "(%s != 0)" % a[1]
        op = r.choice(sorted(CMP))
        a, b, x, y = self.bin(t, op, max(d, 1))
        return x, "(%s %s %s)" % (a, CMP[op], b)


PRE = """#include <nsimd/modules/tet1d.hpp>
#include <math.h>
static inline f32 ld(const f16 *p, nsimd_nat i) { return nsimd_f16_to_f32(p[i]); }
template <class T> static inline T ld(const T *p, nsimd_nat i) { return p[i]; }
static inline void st(f16 *p, nsimd_nat i, f32 v) { p[i] = nsimd_f32_to_f16(v); }
template <class T, class S> static inline void st(T *p, nsimd_nat i, S v) { p[i] = (T)v; }
struct args { void *p[7]; nsimd_nat pre[6], post[6]; int mode[6]; };
// element k of the array is what index 0 of the returned input designates; the array has pre elements before, post after
template <class T> static TET1D_IN(T) cut(const T *p, nsimd_nat pre, nsimd_nat n, nsimd_nat post, int mode) {
  const nsimd_nat m = pre + n + post;
  if (n < 2 || mode == 0) return tet1d::in(p, (int)n);
  TET1D_IN(T) x = tet1d::in(p - pre, m);
  if (mode == 1) return x(pre, pre + n - 1);
  if (mode == 2) return x(pre - m, tet1d::end - post);
  if (mode == 3) return x((int)pre, (short)(tet1d::end - post));
  if (mode == 4) return x(0, tet1d::end)(pre, (unsigned)(pre + n - 1));
  return x(pre, tet1d::end)(0, n - 1);
}
"""


def unit(seed, bits, count, prefix, ext, gpu=False):
    out, rows = [PRE], []
    for k in range(count):
        g = Gen("%s/%d/%d" % (seed, bits, k), bits)
        r = g.r
        tag = "%s_%d_%d" % (prefix, bits, k)
        t = g.types()[k % len(g.types())]
        T = g.ct[t]
        e = g.expr(t, r.randint(1, 4))
        kind = ("plain", "masked", "plain", "masked", "maskedlit")[r.randrange(5)]
        un = r.choice((1, 1, 2, 3, 4))
        o = "tet1d::out(z)" if un == 1 and r.random() < 0.5 else "tet1d::out<%s, nsimd::pack<%s, %d> >(z, 128, NULL)" % (T, T, un)
        if gpu:  # threads per block; negative means the default
            o = o.replace("128", "%d" % (128, 1, 7, 32, 64, 256, -1)[k % 7])
        decl = "TET1D_OUT(%s) Z = %s;" % (T, o) if "pack" not in o else "TET1D_OUT_EX(%s, %d, nsimd::NSIMD_SIMD) Z = %s;" % (T, un, o)
        if kind == "plain":
            s, b = "Z = %s;" % e[0], "st(z, i_, %s);" % e[1]
        else:
            mt = r.choice(g.types())
            c = g.cond(mt, r.randint(0, 3))
            if kind == "maskedlit":
                v = g.lit(t)
                s, b = "Z(%s) = %s;" % (c[0], v[0]), "if (%s) st(z, i_, %s);" % (c[1], v[1])
            else:
                s, b = "Z(%s) = %s;" % (c[0], e[0]), "if (%s) st(z, i_, %s);" % (c[1], e[1])
        # literals alone have no size: the generator always puts at least one array in each operand
        alias = {"i": 0, "u": 2, "f": 4}[t] if r.random() < 0.25 else -1
        arrs = [(q, i, n) for i, (q, n) in enumerate((q, n) for q in "iuf" for n in ARR[q]) if q in g.types()]
        ptr = "".join("%s *%s = (%s *)g_->p[%d]; (void)%s; " % (g.ct[q], n, g.ct[q], i, n) for q, i, n in arrs)
        cuts = "".join("TET1D_IN(%s) %s = cut(%s, g_->pre[%d], n_, g_->post[%d], g_->mode[%d]); (void)%s;\n  " % (g.ct[q], n.upper(), n, i, i, i, n.upper()) for q, i, n in arrs)
        zd = "%s *z = (%s *)g_->p[%d];" % (T, T, alias if alias >= 0 else 6)
        out.append('extern "C" void run_%s(nsimd_nat n_, struct args *g_) {\n  %s\n  %s\n  %s\n  %s\n  %s\n}\n' % (tag, ptr, cuts, zd, decl, s))
        out.append('extern "C" void ref_%s(nsimd_nat n_, struct args *g_) {\n  %s\n  %s\n  for (nsimd_nat i_ = 0; i_ < n_; i_++) { %s }\n}\n' % (tag, ptr, zd, b))
        rows.append((tag, bits, t, un, alias, kind))
    return "\n".join(out), rows


NOTET = ("if_else1",)


def each_unit(t, names):
    """one assignment per function of the module for element type t; results against scalar_<op> and the pack operator"""
    out, rows = [PRE], []
    for name in names:
        o = OPS[name]
        if t not in o["types"] or not o["scalar"]:
            continue
        ps = o["params"][1:]
        tos = [t]
        if not o["closed"]:
            if o["out"] != 1:
                continue
            tos = [c + t[1:] for c in ("iu" if t[1:] == "8" else "iuf")]
        for to in tos:
            tag = "one_%s_%s_%s" % (name, t, to)
            arr = [i for i, a in enumerate(ps) if a in "vl"]
            A = {i: "cut((%s *)g_->p[%d], g_->pre[%d], n_, g_->post[%d], g_->mode[%d])" % (t, i, i, i, i) for i in arr}
            isl = o["params"][0] == "l"
            # logicals come from a comparison of the array with zero
            z = "%s" % ("nsimd_f32_to_f16(0.0f)" if t == "f16" else t + "(0)")
            ta = ", ".join("s_" if a == "p" else A[i] if a == "v" else "tet1d::ne(%s, %s)" % (A[i], z) for i, a in enumerate(ps))
            sa = ", ".join("s_" if a == "p" else "((%s *)g_->p[%d])[i_]" % (t, i) if a == "v" else "nsimd::scalar_ne(((%s *)g_->p[%d])[i_], %s)" % (t, i, z) for i, a in enumerate(ps))
            pa = ", ".join("s_" if a == "p" else "nsimd::loadu<P>((%s *)g_->p[%d] + i_)" % (t, i) if a == "v" else "nsimd::ne(nsimd::loadu<P>((%s *)g_->p[%d] + i_), P(%s))" % (t, i, z) for i, a in enumerate(ps))
            tc, sc, pc = "tet1d::%s(%s)" % (name, ta), "nsimd::scalar_%s(%s)" % (name, sa), "nsimd::%s(%s)" % (name, pa)
            if not o["closed"]:
                tc, sc, pc = "tet1d::%s<%s>(%s)" % (name, to, ta), "nsimd::scalar_%s(%s(), %s)" % (name, to, sa), "nsimd::%s<nsimd::pack<%s> >(%s)" % (name, to, pa)
            if name == "to_mask":
                sc = "nsimd::scalar_%s(%s(), %s)" % (name, to, sa)
            body = "typedef nsimd::pack<%s> P; typedef nsimd::pack<%s> Q; int s_ = g_->mode[5]; (void)s_; (void)sizeof(P); %s *z = (%s *)g_->p[6], *w = z; (void)w;" % (t, to, to, to)
            one = "nsimd_f32_to_f16(1.0f)" if to == "f16" else to + "(1)"
            tw = "nsimd_f32_to_f16(2.0f)" if to == "f16" else to + "(2)"
            run = "tet1d::out(z)(%s) = 1;" % tc if isl else "tet1d::out(z) = %s;" % tc
            ref = "if (%s) z[i_] = %s;" % (sc, one) if isl else "z[i_] = %s;" % sc
            pk = "nsimd::storeu(z + i_, nsimd::if_else1(%s, Q(%s), nsimd::loadu<Q>(z + i_)));" % (pc, one) if isl else "nsimd::storeu(z + i_, %s);" % pc
            out.append('extern "C" void run_%s(nsimd_nat n_, struct args *g_) { %s %s }\n' % (tag, body, run))
            out.append('extern "C" void ref_%s(nsimd_nat n_, struct args *g_) { %s for (nsimd_nat i_ = 0; i_ < n_; i_++) { %s } }\n' % (tag, body, ref))
            out.append('extern "C" void pk_%s(nsimd_nat n_, struct args *g_) { %s for (nsimd_nat i_ = 0; i_ + nsimd::len(P()) <= n_; i_ += nsimd::len(P())) { %s } }\n' % (tag, body, pk))
            rows.append((tag, name, t, to))
    return "\n".join(out), rows


# uses that the API reference promises; each is a translation unit of its own
PROBES = {
    "function_with_literal_of_other_type": "tet1d::out(z) = tet1d::add(A, 1); tet1d::out(z) = tet1d::min(2, A);",
    "boolean_literal_in_condition": "TET1D_OUT(f32) Z = tet1d::out(z); Z(A > 3 && true) = A; Z(tet1d::orl(false, A < 2)) = A;",
    "literals_before_arrays": "tet1d::out(z) = tet1d::fma(2.0f, 3.0f, A); tet1d::out(z) = tet1d::add(1.0f, 2.0f) + A;",
    "shift_operators": "tet1d::out(w) = (tet1d::cvt<i32>(A) << 2) >> 1;",
    "condition_of_other_type": "TET1D_OUT(i32) W = tet1d::out(w); W(A > 3) = 5;",
}


def probe(name):
    return "#include <nsimd/modules/tet1d.hpp>\nvoid probe(f32 *z, i32 *w, TET1D_IN(f32) A);\nvoid probe(f32 *z, i32 *w, TET1D_IN(f32) A) { (void)z; (void)w; %s }\n" % PROBES[name]
