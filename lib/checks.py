"""One function per property: which harnesses, on which extensions, how."""
import hashlib
import re

import vf


def exts(c, want=None):
    e = vf.runnable_exts(want)
    for x in (want or vf.ALL_EXTS):
        if x not in e:
            c.skipped.append("extension %s: not runnable on this CPU" % x)
    return e


def per_ext(c, src, want=None, opt=("-O1",), std="c++11", objs=None, args=(), extra=(), tag="", timeout=400, libs=("-lm",), dirs=None, runs=None, env=None, wrap=()):
    objs = objs if objs is not None else c.core_objs()

    def one(e):
        o = objs[e] if isinstance(objs, dict) else objs
        x = extra
        if dirs:
            # the hash makes a cached object depend on the table it includes
            h = hashlib.sha1(open("%s/table_%s.inc" % (dirs[e], e), "rb").read()).hexdigest()[:12]
            x = (*extra, "-I" + dirs[e], '-DVF_TABLE="table_%s.inc"' % e, "-DVF_TABLE_HASH=0x" + h)
        exe = c.build(src, e, o, opt=opt, std=std, extra=x, tag=tag, libs=libs)
        return e, exe
    exes = c.parallel([lambda e=e: one(e) for e in exts(c, want)])
    if runs:
        c.parallel([lambda e=e, x=x, m=m: c.run(x, "%s-%s@%s%s" % (src.split(".")[0], m, e, tag), args=("mode=" + m,), timeout=timeout, env=env, wrap=wrap) for m in runs for e, x in exes if x])
        return
    c.parallel([lambda e=e, x=x: c.run(x, "%s@%s%s" % (src.split(".")[0], e, tag), args=args, timeout=timeout, env=env, wrap=wrap) for e, x in exes if x])


RULE_OPS = ("every operator x value type x SIMD extension x API surface (C++ base API, pack<T,1>, pack<T,3>, scalar API) is executed on "
            "boundary-value cross products (exhaustive for 8-bit pairs and 16-bit unary) plus seeded random values, shuffled over lanes; "
            "each lane is judged by an independent reference; distinct = distinct (op,type,surface,input) tuples, lower bound by bitmap, per extension summed")


def c01(c):
    c.rule = RULE_OPS
    per_ext(c, "ops_int.cpp")


def c02(c):
    c.rule = RULE_OPS
    per_ext(c, "ops_bits.cpp")


def c03(c):
    c.rule = RULE_OPS
    per_ext(c, "ops_flt.cpp")


def c04(c):
    c.rule = RULE_OPS
    per_ext(c, "ops_cmp.cpp")


def c05(c):
    c.rule = RULE_OPS + "; conversions additionally use neighbourhoods of every power of two"
    per_ext(c, "ops_cvt.cpp")


RULE_MEM = ("every memory operator x type x extension x surface is executed between two PROT_NONE pages over a shadow-compared canary region, flush against both guards, "
            "straddling the page border, at every offset up to two registers, with every prefix/suffix mask, every single active and inactive lane, and random masks; "
            "a fault, a changed byte outside the operand and a wrong element are all violations; distinct = distinct (op,type,surface,position,mask) tuples")


def c06(c):
    c.rule = RULE_MEM
    per_ext(c, "mem.cpp")


def c07(c):
    c.rule = RULE_MEM + "; indexed forms also in a 34 GB sparse mapping where only the named pages are accessible, with extreme and overlapping indices and strides"
    per_ext(c, "mem2.cpp")


def c08(c):
    c.rule = ("every shuffle x type x extension x surface (base, packs of 1, 2 and 3 registers) on distinct, one-marked-lane and random vectors; broadcasts of all 8/16-bit values and boundary/random wider ones; "
              "loop tail masks for all (i, n) around every length, near powers of two and near INT_MAX; distinct = distinct (op,type,surface,input)")
    per_ext(c, "shuf.cpp")


def c09(c):
    c.rule = ("all 65536 f16 values; for f32/f64 a dense sweep of the leading mantissa bits in six binades plus random mantissas in every binade, and ordinary lanes among hostile neighbours; "
              "a value counts when input and result are normal; distinct = distinct (op,type,surface,input)")
    per_ext(c, "recip.cpp")


def c10(c):
    c.rule = ("48 functions x f16 (exhaustive for one argument), f32, f64 x base/packN/scalar x 7 extensions on boundary values, neighbourhoods of argument-reduction and overflow thresholds, "
              "multiples of pi/2, and random magnitudes; error in ulps against long double glibc; distinct = distinct (op,type,surface,input); worst observed error per function in the counters")
    core = c.core_objs()
    per_ext(c, "math.cpp", objs={e: core + o for e, o in c.sleef_objs(exts(c)).items()})


def c11(c):
    c.rule = ("all 2^32 single precision patterns to half, all 2^16 half patterns to single, both directions through the C functions and nsimd::to; all half patterns, boundary and random f32/f64 patterns through the "
              "predicates; pairs around every mantissa distance through ufp; distinct = distinct inputs")
    x = c.build("half.cpp", "cpu", c.core_objs(), opt=("-O2",))
    if x:
        c.parallel([lambda k=k: c.run(x, "half@%d" % k, args=("part=%d" % k, "parts=8")) for k in range(8)])


def c12(c):
    c.rule = ("every pack operator (infix, compound, named), mixed scalar operands of four scalar types on either side, logical operators across mask types, tagged loads/stores, get_pack/to_pack/to_pack_interleave, "
              "printing; 11 types x unrolls 1-4 x 7 extensions, plus packs of an explicitly named lower extension; distinct = distinct (op,type,surface,lane,input)")
    o = c.core_objs()
    per_ext(c, "packops.cpp", objs=o)
    per_ext(c, "friendly.cpp", objs=o)


def c13(c):
    import os
    import gen_csurf
    c.rule = ("every operator x type x output type, through the C base function, the generic macro (with and without extension), the C11 generic selection on default and extension-named types, and the C scalar "
              "functions, compiled as gnu89/c99/c11 by gcc, against the C++ base API on the same operands: results, written memory and returned ints must be bit-identical (NaN == NaN); also each lower extension's "
              "functions from a higher build; distinct = distinct (operator, type, surface, round)")
    ex = exts(c)
    objs = c.sleef_objs(ex)
    core = c.core_objs()
    plan, built = [], {e: [] for e in ex}
    for e in ex:
        d = "%s/csurf_%s" % (c.tmp, e)
        os.mkdir(d)
        for f, lang, std in gen_csurf.generate(d, e, 6, c.tier == "thorough"):
            s, o = d + "/" + f, d + "/" + f + ".o"
            built[e].append(o)
            plan.append(lambda s=s, o=o, e=e, lang=lang, std=std: c.compile_h(
                "%s@%s" % (os.path.basename(s), e), o,
                ["gcc" if lang == "c" else "g++", "-std=" + std, "-O1", "-fwrapv", "-ffp-contract=off", "-w", "-I" + c.inc, *vf.EXT_FLAGS[e], "-c", s], [s]))
    c.parallel(plan)
    per_ext(c, "csurf.cpp", ex, objs={e: core + objs[e] + built[e] for e in ex}, dirs={e: "%s/csurf_%s" % (c.tmp, e) for e in ex})


WRAP = ("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=memalign",)


def c14(c):
    c.rule = ("random histories of allocation and release through every C and C++ entry point with every byte of every live block stamped and the C allocator interposed; injected allocation failures; element counts "
              "that overflow; vectors, deques, lists with nsimd::allocator against the default allocator, with failures at every allocation; C++98..20, plain, AddressSanitizer+UBSan, and 8 threads under ThreadSanitizer")
    modes = [("plain", ("-O1",), s) for s in ("c++98", "c++11", "c++20")] + [("asan", ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), s) for s in ("c++98", "c++14", "c++17")]
    modes += [("tsan", ("-O1", "-g", "-fsanitize=thread"), "c++11")]

    def one(m):
        nm, opt, std = m
        tag = "-%s-%s" % (nm, std)
        objs = c.core_objs(tag=tag, opt=opt, names=("memory", "fp16"))
        o = "%s/alloc_std%s.o" % (c.tmp, tag)
        if not c.compile_h("alloc_std.cpp" + tag, o, ["g++", "-std=" + std, *opt, "-w", "-I" + c.inc, "-I" + vf.SRC, "-DCPU", "-c", vf.SRC + "/alloc_std.cpp"], [vf.SRC + "/alloc_std.cpp"]):
            return
        exe = c.build("alloc.cpp", "cpu", [*objs, o], opt=opt, tag=tag, libs=(*WRAP, "-lm", "-lpthread"))
        if exe:
            env = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:max_allocation_size_mb=4096"}
            c.run(exe, "alloc" + tag, env=env, args=("mode=threads",) if nm == "tsan" else ())
            if std == "c++11" and nm == "plain":
                c.run(exe, "alloc-threads" + tag, args=("mode=threads",))
    c.parallel([lambda m=m: one(m) for m in modes])


def c15(c):
    c.rule = ("randomly generated SPMD kernels (nested k_if/k_elseif/k_else, k_while with k_break, k_continue, k_return, value and void device functions, templated kernels, boolean variables, masked and unmasked loads, "
              "stores and assignments) at 8/16/32/64 bits and unrolls 1-4, on every size around 0..3 registers and random sizes, arrays flush against an inaccessible page, against the scalar program of one element; "
              "distinct = distinct (kernel, unroll, size)")
    ex = exts(c)
    objs = c.sleef_objs(ex)
    core = c.core_objs()
    plan, dirs, built = [], {}, {}
    for n, e in enumerate(ex):
        dirs[e], built[e] = spmd_units(c, e, n, plan, vf.EXT_FLAGS[e])
    c.parallel(plan)
    per_ext(c, "spmd.cpp", ex, objs={e: core + objs[e] + built[e] for e in ex}, dirs=dirs)
    huge(c, "spmd", ex)


def huge(c, mode, ex, **kw):
    """more than 2^31 elements"""
    per_ext(c, "huge.cpp", ex if c.tier == "thorough" else [ex[(c.seed + len(mode)) % len(ex)]], opt=("-O2",), runs=(mode,), **kw)


def spmd_units(c, e, n, plan, flags, gpu=False):
    """generates the kernels of one back end; appends their compilations to plan; returns (folder of the table, objects)"""
    import os
    import gen_spmd
    th = c.tier == "thorough"
    d = "%s/spmd_%s" % (c.tmp, e)
    os.mkdir(d)
    decl, tab, built = [], [], []
    for m, bits in enumerate((8, 16, 32, 64)):
        for part in range(6 if th else 2):
            txt, rows = gen_spmd.unit("%d/%s/%d" % (c.seed, e, part), bits, 30 if th else 8, "k%d" % part, gpu)
            s = "%s/spmd_%d_%d.cpp" % (d, bits, part)
            with open(s, "w") as f:
                f.write(txt)
            for t, b, u in rows:
                decl.append('extern "C" void run_%s(nsimd_nat, struct args *); extern "C" void refrun_%s(nsimd_nat, struct args *);' % (t, t))
                tab.append('{"%s", %d, %d, run_%s, refrun_%s},' % (t, b, u, t, t))
            o = s + ".o"
            built.append(o)
            std = ("gnu++98", "c++11", "c++14", "c++17")[(n + m + part) % 4]
            plan.append(lambda s=s, o=o, std=std: c.compile_h("%s@%s" % (os.path.basename(s), e), o, [
                "g++", "-std=" + std, "-O1", "-fwrapv", "-ffp-contract=off", "-w", *flags, "-I" + c.inc, "-c", s], [s]))
    with open(d + "/table_%s.inc" % e, "w") as f:
        f.write("\n".join(decl) + "\nstatic const Row TABLE[] = {\n" + "\n".join(tab) + "\n};\n")
    return d, built


def c16(c):
    import os
    import gen_tet
    c.rule = ("randomly generated array assignments (expression trees of operators in function and infix form, literals of other types, slices with positive, negative and nested bounds, conditions, unrolls 1-4, in-place outputs) at "
              "8/16/32/64 bits for every size around 0..3 registers and random sizes, arrays flush against inaccessible pages at all alignments, against the scalar program of one element, every byte of every array; one assignment per "
              "function x type against its scalar and pack operator; distinct = distinct (assignment, size)")
    ex = exts(c)
    objs = c.sleef_objs(ex)
    core = c.core_objs()
    plan, dirs, built = [], {}, {}
    for n, e in enumerate(ex):
        dirs[e], built[e] = tet_units(c, e, n, plan, vf.EXT_FLAGS[e])
    for name in gen_tet.PROBES:
        s = "%s/probe_%s.cpp" % (c.tmp, name)
        with open(s, "w") as f:
            f.write(gen_tet.probe(name))
        for e in ("cpu", "avx2") if "avx2" in ex else ("cpu",):
            plan.append(lambda s=s, e=e, name=name: c.compile_h("probe_%s@%s" % (name, e), "%s.%s.o" % (s, e), ["g++", "-std=c++11", "-O1", "-w", "-I" + c.inc, *vf.EXT_FLAGS[e], "-c", s], [s]))
    c.parallel(plan)
    per_ext(c, "tet.cpp", ex, objs={e: core + objs[e] + built[e] for e in ex}, dirs=dirs)
    huge(c, "tet", ex)


def tet_units(c, e, n, plan, flags, gpu=False, each=True):
    import os
    import gen_tet
    th = c.tier == "thorough"
    types = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f16", "f32", "f64"]
    names = [x for x in sorted(gen_tet.OPS) if not gpu or not re.search("_u(05|1[05]|35)$|^(rec|rsqrt|remainder$|fmod$)", x)]  # not bit for bit the same on a device
    d = "%s/tet_%s" % (c.tmp, e)
    os.mkdir(d)
    decl, tab, ones, built = [], [], [], []

    def add(s, txt, std):
        with open(s, "w") as f:
            f.write(txt)
        o = s + ".o"
        built.append(o)
        plan.append(lambda: c.compile_h("%s@%s" % (os.path.basename(s), e), o, [
            "g++", "-std=" + std, "-O1", "-fwrapv", "-ffp-contract=off", "-w", *flags, "-I" + c.inc, "-c", s], [s]))
    for m, bits in enumerate((8, 16, 32, 64)):
        for part in range(6 if th else 1):
            txt, rows = gen_tet.unit("%d/%s/%d" % (c.seed, e, part), bits, 24, "t%d" % part, e, gpu)
            for t, b, ty, un, al, kind in rows:
                decl.append('extern "C" void run_%s(nsimd_nat, struct args *); extern "C" void ref_%s(nsimd_nat, struct args *);' % (t, t))
                tab.append('{"%s", %d, \'%s\', %d, %d, "%s", run_%s, ref_%s},' % (t, b, ty, un, al, kind, t, t))
            add("%s/tet_%d_%d.cpp" % (d, bits, part), txt, ("gnu++98", "c++11", "c++14", "c++17")[(n + m + part) % 4])
    for m, t in enumerate(types if each else ()):
        if not th and (m + n + c.seed) % 4 and not (m >= 8 and (m + n + c.seed) % 3 == 0):
            continue
        for part in range(2 if t[0] == "f" else 1):
            txt, rows = gen_tet.each_unit(t, names[part::2] if t[0] == "f" else names)
            for tag, op, a, b in rows:
                decl.append("".join('extern "C" void %s_%s(nsimd_nat, struct args *); ' % (k, tag) for k in ("run", "ref", "pk")))
                ones.append('{"%s", "%s", \'%s\', \'%s\', %s, run_%s, ref_%s, pk_%s},' % (tag[4:], op, a[0], b[0], a[1:], tag, tag, tag))
            add("%s/one_%s_%d.cpp" % (d, t, part), txt, ("gnu++98", "c++11", "c++14", "c++17")[(n + m + part) % 4])
    with open(d + "/table_%s.inc" % e, "w") as f:
        f.write("\n".join(decl) + "\nstatic const Row TABLE[] = {\n" + "\n".join(tab) + "\n};\nstatic const One ONES[] = {\n" + "\n".join(ones) + "\n};\n")
    return d, built


def c17(c):
    c.rule = ("29 fixed point formats of every storage width, scalar (function, operator, assignment, mixed operand) and pack forms, on boundary and random raw values of the format, every pair of the 8 bit formats, "
              "against exact integer arithmetic; conversions against exact doubles; loads and stores flush against inaccessible pages; distinct = distinct (format, operands)")
    per_ext(c, "fixp.cpp")
    s = vf.SRC + "/fixp98.cpp"
    c.parallel([lambda e=e: c.compile_h("fixp98@" + e, "%s/fixp98.%s.o" % (c.tmp, e), ["g++", "-std=gnu++98", "-O1", "-w", "-I" + c.inc, *vf.EXT_FLAGS[e], "-c", s], [s]) for e in exts(c)])


def c18(c):
    c.rule = ("19 generators and the two wide products on zero, all-ones, counter-like, sparse and random counters and keys with a different value in every lane, against an independent scalar implementation "
              "of the published algorithms (itself pinned to published known answers); two translation units are linked; distinct = distinct (generator, counter, key) lanes")
    ex = exts(c)
    core = c.core_objs()
    o2 = {}
    stds = ("gnu++98", "c++11", "c++14", "c++17")

    def other(n, e):
        o2[e] = "%s/randm2.%s.o" % (c.tmp, e)
        s = vf.SRC + "/randm2.cpp"
        c.compile_h("randm2@" + e, o2[e], ["g++", "-std=" + stds[(n + c.seed) % 4], "-O1", "-w", "-I" + c.inc, *vf.EXT_FLAGS[e], "-c", s], [s])
    c.parallel([lambda n=n, e=e: other(n, e) for n, e in enumerate(ex)])
    per_ext(c, "randm.cpp", ex, objs={e: core + [o2[e]] for e in ex})


def c19(c):
    import os
    import gen_pure
    c.rule = ("every operator x type x output type, every scalar operator and the library functions: in eight floating point environments with every vector and mask register filled with garbage and other calls in between "
              "(control words, x87 stack, operands in memory, results), in eight threads at once on shared operands (plain and ThreadSanitizer), and every store form with threads writing interleaved elements; "
              "distinct = distinct (function, operand set, condition)")
    ex = exts(c)
    modes = {"": ("-O1",), "-tsan": ("-O1", "-g", "-fsanitize=thread")}
    objs = {t: c.sleef_objs(ex, opt=o if t else ("-O2",), tag=t, api=False) for t, o in modes.items()}
    core = {t: c.core_objs(tag=t, opt=o) for t, o in modes.items()}
    plan, dirs, built = [], {}, {(t, e): [] for t in modes for e in ex}
    for n, e in enumerate(ex):
        d = dirs[e] = "%s/pure_%s" % (c.tmp, e)
        os.mkdir(d)
        for k, f in enumerate(gen_pure.generate(d, e, 4)):
            s, std = d + "/" + f, ("gnu++98", "c++11", "c++14", "c++17")[(n + k) % 4]
            for t, opt in modes.items():
                o = "%s%s.o" % (s, t)
                built[t, e].append(o)
                plan.append(lambda s=s, o=o, e=e, std=std, opt=opt: c.compile_h("%s@%s" % (os.path.basename(s), e), o, ["g++", "-std=" + std, *opt, "-fwrapv", "-ffp-contract=off", "-w", "-I" + c.inc, *vf.EXT_FLAGS[e], "-c", s], [s]))
    c.parallel(plan)
    for t, opt in modes.items():
        per_ext(c, "pure.cpp", ex, objs={e: core[t] + objs[t][e] + built[t, e] for e in ex}, dirs=dirs, opt=opt, tag=t, runs=("threads", "disjoint") if t else ("env", "threads", "disjoint"), libs=("-lm", "-lpthread"))


def c20(c):
    c.rule = ("random histories of allocation, filling, partial and whole copies and release on 11 element types against a byte model, with the C allocator interposed, failures injected at every level and element counts that "
              "overflow; on the CPU and on the GPU path over a stand-in runtime whose device memory the host cannot touch; plain and AddressSanitizer builds; distinct = distinct (type, step, operation)")
    modes = [(d, nm, opt) for d in ("cpu", "hip") for nm, opt in (("plain", ("-O1",)), ("asan", ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")))]

    def one(m):
        d, nm, opt = m
        tag = "-%s-%s" % (d, nm)
        objs = c.core_objs(tag=tag, opt=opt, names=("memory", "fp16"))
        extra = ("-fno-builtin", *(("-DNSIMD_ROCM", "-I" + vf.SRC + "/hipstub") if d == "hip" else ()))
        if d == "hip":
            objs = [*objs, *hip_objs(c, tag, opt)]
        exe = c.build("memmgmt.cpp", "cpu", objs, opt=opt, tag=tag, extra=extra, libs=("-Wl,--wrap=malloc,--wrap=calloc,--wrap=free", "-lm"))
        if exe:
            c.run(exe, "memmgmt" + tag)
    c.parallel([lambda m=m: one(m) for m in modes])
    huge(c, "mem", ["cpu"])


def hip_objs(c, tag="", opt=("-O1",)):
    """the stand-in GPU runtime"""
    s, o = vf.SRC + "/hipstub.cpp", "%s/hipstub%s.o" % (c.tmp, tag)
    c.compile(o, ["g++", "-std=c++11", *opt, "-w", "-I" + vf.SRC, "-I" + vf.SRC + "/hipstub", "-c", s], [s])
    return [o]


GPUS = {"hip": ("-DNSIMD_ROCM",), "cuda35": ("-DNSIMD_CUDA", "-D__CUDACC_VER_MAJOR__=10", "-D__CUDA_ARCH__=350"), "cuda70": ("-DNSIMD_CUDA", "-D__CUDACC_VER_MAJOR__=10", "-D__CUDA_ARCH__=700")}


def c21(c):
    c.rule = ("the functions GPU kernels are made of (ROCm, CUDA with and without native half arithmetic), compiled for the host over stand-in runtime headers: every operator x type against the references of the host operators; "
              "randomly generated SPMD kernels and TET1D assignments launched on grids of all shapes against the scalar program of one element; distinct = distinct (operator, type, input), (kernel, size)")
    import os
    objs = [*c.core_objs(names=("memory", "fp16")), *hip_objs(c)]
    dev = []
    for f in ("memory", "fp16", "gpu"):
        dev.append("%s/%s.hip.o" % (c.tmp, f))
        c.compile(dev[-1], ["g++", "-std=c++11", "-O1", "-w", "-DNSIMD_ROCM", "-I" + vf.SRC + "/hipstub", "-I" + c.inc, "-c", "%s/%s.cpp" % (c.nsrc, f)], ["%s/%s.cpp" % (c.nsrc, f)])
    base = ("-DCPU", "-I" + vf.SRC + "/hipstub", "-I" + vf.SRC)

    def op(src, m):
        exe = "%s/%s-%s" % (c.tmp, src, m)
        s = "%s/%s.cpp" % (vf.SRC, src)
        if c.compile_h("%s@%s" % (src, m), exe + ".o", ["g++", "-std=c++11", "-fwrapv", "-O1", "-w", '-DVF_GPU="%s"' % m, *GPUS[m], *base, "-I" + c.inc, "-c", s], [s]) and c.link_h(exe, ["g++", exe + ".o", *objs, "-lm", "-lquadmath", "-o", exe]):
            c.run(exe, "%s@%s" % (src, m))
    plan = [lambda s=s, m=m: op(s, m) for s in ("gpu", "ops_int", "ops_flt", "ops_bits", "recip", "math") for m in GPUS]
    flags = (*GPUS["hip"], *base)
    sd, so = spmd_units(c, "hip", 0, plan, flags, True)
    td, to = tet_units(c, "hip", 1, plan, flags, True)
    c.parallel(plan)

    def prog(src, d, o):
        exe = "%s/%s-hip" % (c.tmp, src)
        s = "%s/%s.cpp" % (vf.SRC, src)
        h = hashlib.sha1(open(d + "/table_hip.inc", "rb").read()).hexdigest()[:12]
        c.compile(exe + ".o", ["g++", "-std=c++11", "-O1", "-w", '-DVF_GPU="hip"', *flags, "-I" + c.inc, "-I" + d, '-DVF_TABLE="table_hip.inc"', "-DVF_TABLE_HASH=0x" + h, "-c", s], [s])
        if all(os.path.exists(x) for x in o) and c.link_h(src + "@hip", ["g++", exe + ".o", *o, *dev, *[x for x in objs if "/oracle" in x or "/hipstub" in x], "-lm", "-lquadmath", "-o", exe]):
            c.run(exe, src + "@hip")

    def big():
        exe = c.build("huge.cpp", "cpu", [*dev, *[x for x in objs if "/oracle" in x or "/hipstub" in x]], opt=("-O2",), tag="-hip", extra=flags, libs=("-lm", "-lquadmath"))
        for m in ("tet", "spmd"):
            if exe:
                c.run(exe, "huge-%s@hip" % m, ["mode=" + m])
    c.parallel([lambda: prog("spmd", sd, so), lambda: prog("tet", td, to), big])


UB = ("-O1", "-fsanitize=address,undefined", "-fno-sanitize=shift-base,signed-integer-overflow")
UBENV = {"UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77", "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0"}


def pure_units(c, ex, variants, chunks=4):
    """the generated calls of every operator, compiled once per variant {tag: (compiler, std or None, flags)}; returns (folders of the tables, {(tag, ext): objects})"""
    import os
    import gen_pure
    plan, dirs, built = [], {}, {(t, e): [] for t in variants for e in ex}
    for n, e in enumerate(ex):
        d = dirs[e] = "%s/pure_%s" % (c.tmp, e)
        os.mkdir(d)
        for k, f in enumerate(gen_pure.generate(d, e, chunks)):
            s = d + "/" + f
            for t, (cxx, std, opt) in variants.items():
                std = std or ("gnu++98", "c++11", "c++14", "c++17")[(n + k) % 4]
                o = "%s%s.o" % (s, t)
                built[t, e].append(o)
                plan.append(lambda s=s, o=o, e=e, std=std, opt=opt, cxx=cxx, t=t: c.compile_h("%s@%s%s" % (os.path.basename(s), e, t), o, [cxx, "-std=" + std, *opt, "-ffp-contract=off", "-w", "-I" + c.inc, *vf.EXT_FLAGS[e], "-c", s], [s]))
    c.parallel(plan)
    return dirs, built


def c22(c):
    import os
    c.rule = ("every operator x type x output type and every scalar and library function on boundary and random operands under AddressSanitizer and UndefinedBehaviorSanitizer (7 extensions) and under valgrind memcheck, which tells "
              "whether a result depends on uninitialised memory (the 5 extensions it can execute); the pack API, fixed point, random, SPMD and TET1D workloads of the other checks under both sanitizers; "
              "distinct = distinct (function, operand set)")
    ex, th = exts(c), c.tier == "thorough"
    vg = [e for e in ex if not e.startswith("avx512")]
    mem = ("-O1", "-g1")
    objs = {"-ub": c.sleef_objs(ex, opt=UB, tag="-ub", api=False), "-vg": c.sleef_objs(vg, opt=mem, tag="-vg", api=False)}
    core = {"-ub": c.core_objs(tag="-ub", opt=UB), "-vg": c.core_objs(tag="-vg", opt=mem)}
    # modules and packs: compiled without optimisation, which costs a third
    stop = (*UB, "-O0", "-fno-sanitize-recover=undefined")

    def pick(n, k):
        """k extensions, others for every seed; the thorough tier takes all of them"""
        return ex if th else [ex[(c.seed + n + i * (len(ex) // k)) % len(ex)] for i in range(k)]

    def pure():
        lib = ("-lm", "-lpthread")
        dirs, built = pure_units(c, ex, {"-ub": ("g++", None, UB), "-vg": ("g++", None, mem)})
        c.parallel([
            lambda: per_ext(c, "pure.cpp", ex, objs={e: core["-ub"] + objs["-ub"][e] + built["-ub", e] for e in ex}, dirs=dirs, opt=UB, tag="-ub", extra=("-DVF_UB",), runs=("ub",), libs=lib, env=UBENV),
            lambda: per_ext(c, "pure.cpp", vg, objs={e: core["-vg"] + objs["-vg"][e] + built["-vg", e] for e in vg}, dirs=dirs, opt=mem, tag="-vg", extra=("-DVF_MEMCHECK",), libs=lib, wrap=("valgrind", "-q", "--error-limit=no"))])

    def module(src, p):
        o2 = {e: core["-ub"] for e in p}
        if src == "randm.cpp":
            for e in p:
                s, o = vf.SRC + "/randm2.cpp", "%s/randm2.%s-ub.o" % (c.tmp, e)
                c.compile_h("randm2@" + e, o, ["g++", "-std=c++11", *stop, "-w", "-I" + c.inc, *vf.EXT_FLAGS[e], "-c", s], [s])
                o2[e] = core["-ub"] + [o]
        per_ext(c, src, p, objs=o2, opt=stop, tag="-ub", env=UBENV)

    def kernels(src, p, make):
        plan, u = [], {}
        for n, e in enumerate(p):
            u[e] = make(e, n, plan)
        c.parallel(plan)
        per_ext(c, src, p, objs={e: core["-ub"] + objs["-ub"][e] + u[e][1] for e in p}, dirs={e: u[e][0] for e in p}, opt=stop, tag="-ub", env=UBENV)
    c.parallel([
        lambda: module("packops.cpp", pick(0, 1)), pure, lambda: module("fixp.cpp", pick(1, 1)), lambda: module("randm.cpp", pick(2, 3)),
        lambda: kernels("spmd.cpp", pick(3, 2), lambda e, n, plan: spmd_units(c, e, n, plan, (*vf.EXT_FLAGS[e], *stop))),
        lambda: kernels("tet.cpp", pick(4, 2), lambda e, n, plan: tet_units(c, e, n, plan, (*vf.EXT_FLAGS[e], *stop), each=th))])


VARIANTS = {  # name: compiler, standard, flags; the first is the reference; c_ marks C (the C base functions)
    "gcc_O1_11": ("g++", "c++11", ("-O1",)), "gcc_O0_98": ("g++", "c++98", ("-O0",)), "gcc_O3_20": ("g++", "c++20", ("-O3",)), "clang_O2_14": ("clang++", "c++14", ("-O2",)), "c_gcc_O2_89": ("gcc", "gnu89", ("-O2", "-D__STRICT_ANSI__")),
    "gcc_O2_native": ("g++", "c++17", ("-O2", "-march=native")), "clang_O0_20": ("clang++", "c++20", ("-O0",)), "clang_O3_native": ("clang++", "c++98", ("-O3", "-march=native")), "c_clang_O3_11": ("clang", "c11", ("-O3",)),
    "gcc_Os_14": ("g++", "c++14", ("-Os", "-funsigned-char")), "c_gcc_O0_99": ("gcc", "c99", ("-O0",)), "c_clang_O1_89": ("clang", "gnu89", ("-O1", "-D__STRICT_ANSI__"))}


HEADERS = {"c": "#include <nsimd/nsimd-all.h>\nint main(void) { return nsimd_scalar_add_i32(1, -1); }\n",
           "cpp": "#include <nsimd/nsimd-all.hpp>\n#include <nsimd/modules/spmd.hpp>\n#include <nsimd/modules/tet1d.hpp>\n#include <nsimd/modules/fixed_point.hpp>\n#include <nsimd/modules/random/functions.hpp>\n"
                  "#include <nsimd/modules/memory_management.hpp>\nint main() { return nsimd::len(nsimd::pack<float>()) > 0 ? 0 : 1; }\n"}
HEADER_MODES = [("c", "gnu89", ("-D__STRICT_ANSI__",)), ("c", "c99", ("-pedantic-errors",)), ("c", "c11", ("-pedantic-errors",)), ("c", "c17", ("-pedantic-errors",))]
HEADER_MODES += [("cpp", s, ("-pedantic-errors",)) for s in ("c++98", "c++11", "c++14", "c++17", "c++20")]


def cflags(e, cxx):
    """flags of an extension for a compiler"""
    return [x for x in vf.EXT_FLAGS[e] if "clang" not in cxx or "-avx256-" not in x]


def c23(c):
    import os
    import gen_pure
    c.rule = ("every operator x type x output type and every scalar and library function, compiled by GCC and Clang at several optimisation levels and language standards and for a newer CPU than the extension, on the same boundary and "
              "random operands: results, written memory and returned integers bit for bit (NaN == NaN); the headers and a small program of every module in every advertised standard; distinct = distinct (function, build, operand set)")
    ex, th = exts(c), c.tier == "thorough"
    core, objs = c.core_objs(), c.sleef_objs(ex, api=False)
    plan, dirs, built = [], {}, {e: [] for e in ex}
    for n, e in enumerate(ex):
        d = dirs[e] = "%s/port_%s" % (c.tmp, e)
        os.mkdir(d)
        names = list(VARIANTS)
        if not th:
            names = names[:5] if (n + c.seed) % 2 else [names[0], *names[5:9]]
        for f in gen_pure.generate(d, e, 4, names):
            s = d + "/" + f
            for v in names:
                cxx, std, opt = VARIANTS[v]
                o = "%s.%s.o" % (s, v)
                built[e].append(o)
                plan.append(lambda s=s[:-2] if v.startswith("c_") else s, o=o, e=e, std=std, opt=opt, cxx=cxx, v=v: c.compile_h("%s@%s-%s" % (os.path.basename(s), e, v), o, [cxx, "-std=" + std, *opt, "-DVF_V=%s_" % v, "-ffp-contract=off", "-w", "-I" + c.inc, *cflags(e, cxx), "-c", s], [s]))
    for n, e in enumerate(ex):
        for m, (k, std, strict) in enumerate(HEADER_MODES):
            for q, cxx in enumerate((("gcc", "clang"), ("g++", "clang++"))[k == "cpp"]):
                if not th and (n + m + q + c.seed) % 2:
                    continue
                s = "%s/headers.%s" % (c.tmp, k)
                with open(s, "w") as f:
                    f.write(HEADERS[k])
                plan.append(lambda s=s, e=e, cxx=cxx, std=std, strict=strict: c.compile_h("headers@%s-%s-%s" % (e, cxx, std), "%s.%s.%s.%s.o" % (s, e, cxx, std), [cxx, "-std=" + std, "-O0", *strict, "-I" + c.inc, *cflags(e, cxx), "-c", s], [s]))
    c.counters["translation units of all headers in strict mode"] = len(ex) * len(HEADER_MODES) * (2 if th else 1)
    c.parallel(plan)
    # the workloads of other checks in other builds
    o2, jobs = {}, []
    for n, (cxx, std, opt) in enumerate((("g++", "c++20", ("-O3",)), ("clang++", "c++17", ("-O2",)), ("clang++", "c++20", ("-O3",)), ("g++", "c++14", ("-O2", "-march=native")))):
        tag = "-%s-%s" % (cxx.strip("+"), std[3:])
        for k, src in enumerate(("packops.cpp", "fixp.cpp", "randm.cpp", "friendly.cpp")):
            pick = ex if th else [e for i, e in enumerate(ex) if (i + n + k + c.seed) % len(ex) == 0 and (src != "packops.cpp" or n < 2)]
            for e in pick:
                def job(e=e, src=src, cxx=cxx, std=std, opt=opt, tag=tag):
                    o = list(core)
                    if src == "randm.cpp":
                        q, s = "%s/randm2.%s%s.o" % (c.tmp, e, tag), vf.SRC + "/randm2.cpp"
                        c.compile_h("randm2@" + e + tag, q, [cxx, "-std=" + std, *opt, "-w", "-I" + c.inc, *cflags(e, cxx), "-c", s], [s])
                        o.append(q)
                    x = c.build(src, e, o, std=std, opt=opt, cxx=cxx, tag=tag)
                    if x:
                        c.run(x, "%s@%s%s" % (src.split(".")[0], e, tag))
                jobs.append(job)
    c.parallel(jobs)
    per_ext(c, "csurf.cpp", ex, objs={e: core + objs[e] + built[e] for e in ex}, dirs=dirs, extra=('-DVF_REF="the reference build (g++ -O1)"',), libs=("-lm", "-lpthread"))


def c24(c):
    import repro
    repro.run(c)


OPNOTE = ("Runs the real generated code of all seven executable back ends on the host CPU; a violation is reproduced by re-running with the same seed. "
          "Trusts the compiler, the CPU and the reference in src/oracle.c; ARM, PPC and GPU back ends cannot be executed here.")
META = {
    "C01": ("runtime oracle monitor over every lane, boundary + exhaustive + random workloads on 7 back ends", OPNOTE),
    "C02": ("runtime oracle monitor over every lane, boundary + exhaustive + random workloads on 7 back ends", OPNOTE),
    "C03": ("runtime oracle monitor (exact/correctly rounded reference) over every lane on 7 back ends", OPNOTE),
    "C04": ("runtime oracle monitor over every lane, boundary + exhaustive + random workloads on 7 back ends", OPNOTE),
    "C05": ("runtime oracle monitor over every conversion pair and lane on 7 back ends", OPNOTE),
    "C06": ("guard-page and shadow-canary memory monitor with fault recovery, element oracle, on 7 back ends", OPNOTE),
    "C07": ("guard-page, sparse-mapping and shadow-canary memory monitor with element and lane-order oracle on 7 back ends", OPNOTE),
    "C08": ("runtime lane-position oracle over shuffles, broadcasts, iota and tail masks on 7 back ends", OPNOTE),
    "C09": ("runtime relative-error monitor against long double references on 7 back ends", OPNOTE),
    "C11": ("runtime oracle monitor, exhaustive over all 2^32 single and 2^16 half patterns", "Trusts the CPU's single precision arithmetic used by the reference. isnormal on half subnormals is a recorded finding."),
    "C12": ("runtime per-lane oracle monitor over every pack operator form and unroll on 7 back ends", OPNOTE),
    "C21": ("runtime oracle monitor over the device functions, SPMD and TET1D kernels of the GPU path on stand-in runtimes", "Stand-in headers replace the ROCm and CUDA runtimes: device code runs serially on the host, so scheduling, real device arithmetic and the CUDA launch syntax are not observed."),
    "C13": ("differential runtime monitor: every C surface against the C++ API on identical operands, 7 back ends", OPNOTE + " The C++ API is the reference here; the other properties judge it."),
    "C14": ("interposed-allocator monitor with fault injection, AddressSanitizer/UBSan and ThreadSanitizer, container differential", "Trusts the C library's allocator below the interposer and libstdc++'s containers."),
    "C15": ("differential runtime monitor over generated programs: SPMD kernel against the scalar program, guard pages, watchdog", OPNOTE + " 8 and 16 bit infix operators promote to int in the scalar tail, so kernels use the named functions there."),
    "C16": ("differential runtime monitor over generated programs: array assignment against the scalar program, guard pages, every byte compared", OPNOTE),
    "C17": ("runtime oracle monitor against exact integer arithmetic over 41 formats on 7 back ends", OPNOTE + " Logarithms, exponentials of fractions and trigonometry (undocumented, unfinished) are not judged."),
    "C18": ("differential runtime monitor against the published generators with known answers, per lane, on 7 back ends", OPNOTE),
    "C19": ("control-register, operand and result monitors in hostile environments, ThreadSanitizer and multi-threaded differential runs on 7 back ends", "ThreadSanitizer sees plain accesses, not those of vector builtins; those are covered by comparing results and by interleaved writers. Elementary functions' results are compared in the default environment only."),
    "C20": ("model-checked random histories with an interposed allocator, fault injection, guarded stand-in device memory and AddressSanitizer", "The GPU path runs over a stand-in runtime (src/hipstub*), not a real device."),
    "C22": ("AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck over every operator and module on 7 back ends", "Signed overflow, left shifts of negative numbers and out of range float to integer casts are not judged: results are (C01, C02, C05). Sanitizers do not see accesses made by vector intrinsics; C06, C07 and memcheck do. Memcheck cannot execute AVX-512."),
    "C24": ("file system monitor over the real generator in hostile environments, interrupted and restricted runs", "Only the generators of the library and of the tests are run; downloading Sleef and the HTML documentation need tools that are not here."),
    "C23": ("differential runtime monitor over builds: GCC and Clang, four optimisation levels, five C++ standards, 7 back ends", "Elementary functions are compiled once (by GCC); contraction of a*b+c is switched off so that builds are comparable. MSVC, ICC and other compilers are not available."),
    "C10": ("runtime ulp-error monitor against long double references on 7 back ends", OPNOTE + " Long double glibc functions are trusted to a few hundredths of an f64 ulp."),
}
CHECKS = {"C24": c24, "C23": c23, "C22": c22, "C19": c19, "C21": c21, "C20": c20, "C18": c18, "C17": c17, "C16": c16, "C15": c15, "C14": c14, "C13": c13, "C12": c12, "C11": c11, "C09": c09, "C10": c10, "C08": c08, "C07": c07, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06}
