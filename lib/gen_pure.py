"""Generates one function per operator, type and output type (C++ base API or C scalar functions) for src/pure.cpp,
which calls them under hostile conditions: other floating point environments, other threads, dirty registers."""
from gen_csurf import CIO, Ent, INTRES, LOGI, instances, s_base, s_cxx, s_scal, scalar_inst, w

LIB = [("f16_to_f32", "f16", "f32", "S,v", "((f32 *)x->out)[i] = nsimd_f16_to_f32(((const f16 *)x->in[0])[i])"),
       ("f32_to_f16", "f32", "f16", "S,v", "((f16 *)x->out)[i] = nsimd_f32_to_f16(((const f32 *)x->in[0])[i])")]
for T in ("f16", "f32", "f64"):
    LIB.append(("ufp", T, "i32", "S,v,v", "((i32 *)x->out)[i] = nsimd_ufp_%s(((const %s *)x->in[0])[i], ((const %s *)x->in[1])[i])" % (T, T, T)))
    for f in ("isnan", "isinf", "isnormal"):
        LIB.append((f, T, "i32", "S,v", "((i32 *)x->out)[i] = nsimd_%s_%s(((const %s *)x->in[0])[i])" % (f, T, T)))


def generate(d, ext, chunks, variants=None):
    """variants: names of differently compiled copies of the same functions, the first of which is the reference (compiled with -DVF_V=<name>_)"""
    parts, cparts, decl, table = [[] for _ in range(chunks)], [[] for _ in range(chunks)], [], []

    def put(i, body, cbody, key, op, t, to, ln, sig):
        parts[i % chunks].append("void Z(%d)(struct io *x) { %s }" % (i, body))
        cparts[i % chunks].append("void Z(%d)(struct io *x) { %s }" % (i, cbody))
        # strict C89 has no fma(): there scalar functions and emulations round twice, which C03 allows
        skip = op in ("fma", "fms", "fnma", "fnms") and t[0] == "f"
        fn = ['{"%s", %s_%d}' % (v or "pure", v or "z", i) for v in variants or ("",) if not (skip and v.endswith("_89"))]
        decl.extend("void %s_%d(struct io *);" % (v or "z", i) for v in variants or ("",))
        table.append('{"%s/%s", "%s", "%s", "%s", %s, "%s", {%s}},' % (ext, key, op, t, to, ln, sig, ", ".join(fn)))
    n = 0
    for e in (Ent(*i, ext) for i in instances()):
        put(n, s_cxx(e, True), s_base(e), "%s/%s" % (e.op, e.t if e.o["closed"] else e.t + "-" + e.to), e.op, e.t, e.to, "nsimd_len_%s_%s" % (ext, e.t), ",".join([e.ret] + e.args))
        n += 1
    for op, o, t, to in scalar_inst():
        b = s_scal(op, o, t, to, False)
        if b:
            put(n, b, b, "scalar_%s/%s" % (op, t if o["closed"] else t + "-" + to), op, t, "i32" if op in INTRES or op in LOGI else to, "0", ",".join(["S"] + o["params"][1:]))
            n += 1
    for op, t, to, sig, body in LIB:
        b = "{ int i; for (i = 0; i < 16; i++) %s; }" % body
        put(n, b, b, "lib_%s/%s" % (op, t), op, t, to, "0", sig)
        n += 1
    files = []
    top = "#ifndef VF_V\n#define VF_V z_\n#endif\n#define Z__(a, b) a##b\n#define Z_(a, b) Z__(a, b)\n#define Z(n) Z_(VF_V, n)\n#include <string.h>\n#include <nsimd/nsimd.h>\n" + CIO
    for k in range(chunks):
        f = "pure_%s_%d" % (ext, k)
        w(d, f + ".cpp", top + 'extern "C" {\n' + "\n".join(parts[k]) + "\n}\n")
        if any(v.startswith("c_") for v in variants or ()):
            w(d, f + ".c", top + "\n".join(cparts[k]) + "\n")
        files.append(f + ".cpp")
    w(d, "table_%s.inc" % ext, 'extern "C" {\n' + "\n".join(decl) + "\n}\nstatic const Row TABLE[] = {\n" + "\n".join(table) + "\n};\n")
    return files
