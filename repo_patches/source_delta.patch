From 6ea4d4f6b7ca459213e05c8c1072de6aee663ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 01/35] fix: saturated subtraction of the smallest signed
 integer

subs(a, b) was computed as adds(a, -b). When b is the smallest
representable integer -b wraps back to b and the result was wrong (e.g.
subs(0, INT_MIN) == INT_MIN instead of INT_MAX) for the scalar and cpu
implementations and for i32/i64 on x86. Use ~adds(~a, b) instead.
---
 egg/platform_x86.py | 10 +++++++---
 egg/scalar.py       |  8 +++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index a84ccc5..5943ff5 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -276,7 +276,7 @@ def get_additional_include(func, platform, simd_ext):
                       '''.format(simd_ext=simd_ext)
     if func == 'subs':
         ret += '''#include <nsimd/x86/{simd_ext}/adds.h>
-                  #include <nsimd/x86/{simd_ext}/neg.h>
+                  #include <nsimd/x86/{simd_ext}/notb.h>
                   #include <nsimd/x86/{simd_ext}/sub.h>
                   #include <nsimd/x86/{simd_ext}/gt.h>
                   #include <nsimd/x86/{simd_ext}/set1.h>
@@ -3224,8 +3224,12 @@ def subs(simd_ext, typ):
                    'subs', simd_ext, typ)
 
     if typ in common.itypes:
-        return 'return nsimd_adds_{simd_ext}_{typ}({in0}, ' \
-               'nsimd_neg_{simd_ext}_{typ}({in1}));'.format(**fmtspec)
+        # -{in1} is not representable when {in1} is the smallest integer, so
+        # use a - b == ~(~a + b); ~ also swaps the saturation bounds
+        return '''return nsimd_notb_{simd_ext}_{typ}(
+                           nsimd_adds_{simd_ext}_{typ}(
+                             nsimd_notb_{simd_ext}_{typ}({in0}), {in1}));'''. \
+                             format(**fmtspec)
 
     min_ = common.limits[typ]['min']
 
diff --git a/egg/scalar.py b/egg/scalar.py
index 1545a84..32ddef0 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -333,9 +333,11 @@ def subs(typ):
                     return ({typ})({in0} - {in1});
                   }}
                   '''.format(**fmtspec)
-    # Getting here means typ is signed
-    return 'return nsimd_scalar_adds_{typ}({in0}, ({typ})(-{in1}));'. \
-           format(**fmtspec)
+    # Getting here means typ is signed. As -{in1} is not representable when
+    # {in1} is the smallest integer, use a - b == ~(~a + b) which never
+    # negates and whose saturation bounds are swapped by ~ accordingly.
+    return '''return ({typ})~nsimd_scalar_adds_{typ}(
+                         ({typ})~{in0}, {in1});'''.format(**fmtspec)
 
 # -----------------------------------------------------------------------------
 
-- 
2.43.0


From 14259362b5cca30c4a6dd7ed2919a3551ffa48ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:22 +0000
Subject: [PATCH 02/35] fix: horizontal sum of unrolled packs of f16

addv of a pack<f16, N> with N > 1 did not compile: it added two f16 with
an operator that does not exist.
---
 include/nsimd/cxx_adv_api.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 242837c..7331bae 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -537,6 +537,18 @@ T addv(pack<T, N, SimdExt> const &a0) {
   return addv(a0.car, T(), SimdExt()) + addv(a0.cdr);
 }
 
+// f16 has no arithmetic operators
+template <NSIMD_CONCEPT_SIMD_EXT SimdExt>
+f16 addv(pack<f16, 1, SimdExt> const &a0) {
+  return addv(a0.car, f16(), SimdExt());
+}
+
+template <int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
+f16 addv(pack<f16, N, SimdExt> const &a0) {
+  return nsimd_f32_to_f16(nsimd_f16_to_f32(addv(a0.car, f16(), SimdExt())) +
+                          nsimd_f16_to_f32(addv(a0.cdr)));
+}
+
 // ----------------------------------------------------------------------------
 // The all function cannot be auto-generated
 
-- 
2.43.0


From e980b50355173e64b534ad71b4fbb1fc25981fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:54 +0000
Subject: [PATCH 03/35] fix: absolute value of negative zero in the scalar and
 CPU back end

abs(-0.0) returned -0.0 where every SIMD back end returns +0.0.
---
 egg/scalar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/egg/scalar.py b/egg/scalar.py
index 32ddef0..aa190f6 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -373,8 +373,11 @@ def get_impl(operator, totyp, typ):
     if operator.name == 'abs':
         if typ == 'f16':
             return '''f32 tmp = nsimd_f16_to_f32({in0});
-                      return nsimd_f32_to_f16(tmp >= 0.0f ? tmp : -tmp);'''. \
+                      return nsimd_f32_to_f16(tmp > 0.0f ? tmp : 0.0f - tmp);'''. \
                       format(**fmtspec)
+        elif typ in common.ftypes:
+            return 'return {in0} > ({typ})0 ? {in0} : ({typ})0 - {in0};'. \
+                   format(**fmtspec)
         elif typ in common.utypes:
             return 'return {in0};'.format(**fmtspec)
         else:
-- 
2.43.0


From 075ec2d7332776ae82d6e0b13b25d99dd2bd21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:38 +0000
Subject: [PATCH 04/35] fix: conversions and logical loads and broadcasts of
 unrolled packs

cvt, upcvt, downcvt, reinterpret, reinterpretl, loadlu, loadla, set1l and
mask_for_loop_tail did not compile for packs of more than one register: the
recursive call on the remaining registers was given the wrong type.
---
 egg/gen_adv_cxx_api.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 0f0f275..9da88fe 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -40,6 +40,11 @@ def get_cxx_advanced_generic(operator):
              if i in operator.params[1:]]
     need_tmpl_pack = get_pack(operator.params[0]) if inter == [] else None
 
+    # Type of the result of the recursive call on the remaining registers
+    def cdr_pack(typ):
+        return common.get_one_type_generic_adv_cxx(operator.params[0], typ,
+                                                   'N - 1')
+
     # Compute parameters passed to the base C++ API functions
     def var(arg, N):
         member = 'car' if N == '1' else 'cdr'
@@ -57,9 +62,9 @@ def get_cxx_advanced_generic(operator):
     if other_varsN != '':
         other_varsN = ', ' + other_varsN
     if not operator.closed:
-        varsN = ['typename ToPackType::value_type()'] + varsN
+        varsN = [cdr_pack('typename ToPackType::value_type') + '()'] + varsN
     if need_tmpl_pack != None:
-        varsN = ['{}<T, N - 1, SimdExt>()'.format(need_tmpl_pack)] + varsN
+        varsN = [cdr_pack('T') + '()'] + varsN
     vars1 = ', '.join(vars1)
     varsN = ', '.join(varsN)
 
@@ -91,7 +96,8 @@ def get_cxx_advanced_generic(operator):
             ret_car = \
                 '''typename simd_traits<typename ToPackType::value_type,
                        SimdExt>::simd_vectorx{} car = '''.format(num)
-        ret_cdr = 'packx{}<T, N - 1, SimdExt> cdr = '.format(num)
+        ret_cdr = cdr_pack('T' if operator.closed else \
+                           'typename ToPackType::value_type') + ' cdr = '
         post_car = '; ret.set_car({})'.format(', '.join( \
             ['car.v{}'.format(i) for i in range(0, int(num))]))
         post_cdr = '; ret.set_cdr({})'.format(', '.join( \
-- 
2.43.0


From 1c3bc79fd4312bee545cf9a2f031e25dd205ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:33 +0000
Subject: [PATCH 05/35] fix: position of the later registers of unrolled packs

For packs of more than one register, gather and scatter shifted the base
address of the remaining registers although offsets are absolute,
gather_linear and scatter_linear ignored the stride between registers, iota
restarted from zero in each register and mask_for_loop_tail applied the
same bounds to every register.
---
 egg/gen_adv_cxx_api.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 9da88fe..d9bee52 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -51,7 +51,15 @@ def get_cxx_advanced_generic(operator):
         if arg[1] in ['vi', 'v', 'l']:
             return 'a{}.{}'.format(arg[0], member)
         elif (arg[1] in ['*', 'c*']) and N != '1':
+            if operator.name in ['gather', 'scatter']:
+                # offsets are relative to the same base for all registers
+                return 'a{}'.format(arg[0])
+            elif operator.name in ['gather_linear', 'scatter_linear']:
+                return 'a{} + len_ * a1'.format(arg[0])
             return 'a{} + len_'.format(arg[0])
+        elif operator.name == 'mask_for_loop_tail' and arg[0] == 0 and \
+             N != '1':
+            return 'a0 + len(T(), SimdExt())'
         else:
             return 'a{}'.format(arg[0])
     vars1 = [var(i, '1') for i in args_list] + ['T()'] + \
@@ -67,6 +75,13 @@ def get_cxx_advanced_generic(operator):
         varsN = [cdr_pack('T') + '()'] + varsN
     vars1 = ', '.join(vars1)
     varsN = ', '.join(varsN)
+    if operator.name == 'iota':
+        # lanes of the remaining registers go on where the first one stops
+        cdr_call = 'add({{cxx_name}}({}), ' \
+                   'set1({}(), nsimd::to<T>(len(T(), SimdExt()))))'. \
+                   format(varsN, cdr_pack('T'))
+    else:
+        cdr_call = '{{cxx_name}}({})'.format(varsN)
 
     # Compute return type
     ret1 = 'ToPackType' if not operator.closed \
@@ -112,7 +127,8 @@ def get_cxx_advanced_generic(operator):
         post_cdr = ''
         pack1_ret = ''
         packN_ret = ''
-    if '*' in operator.params[1:] or 'c*' in operator.params[1:]:
+    if ('*' in operator.params[1:] or 'c*' in operator.params[1:]) and \
+       operator.name not in ['gather', 'scatter']:
         # store*[au] does not contain any packx* argument, therefore the offset
         # cannot be correctly computed
         if operator.name in ['store2u', 'store2a']:
@@ -139,12 +155,12 @@ def get_cxx_advanced_generic(operator):
 
               {{sigN}} {{{{{packN_ret}{int_len}
                 {ret_car}{name}({vars1}){post_car};
-                {ret_cdr}{{cxx_name}}({varsN}){post_cdr};
+                {ret_cdr}{cdr_call}{post_cdr};
               {return_ret}}}}}'''. \
 	      format(pack1_ret=pack1_ret, ret_car=ret_car, name=operator.name,
 	             vars1=vars1, return_ret=return_ret, retN=retN,
 	             packN_ret=packN_ret, int_len=int_len, ret_cdr=ret_cdr,
-	             varsN=varsN, post_car=post_car, post_cdr=post_cdr)
+	             cdr_call=cdr_call, post_car=post_car, post_cdr=post_cdr)
 
     ret = ''
     if operator.cxx_operator:
-- 
2.43.0


From 5cb1f870824c40ef1ad7aa081f4e7d8b0ad13b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:50 +0000
Subject: [PATCH 06/35] fix: x86 conversions from floating point to integers
 truncate

cvt and upcvt from f32 (f16) to 32-bit integers, and on AVX-512 SKYLAKE from
f64 to 64-bit integers, rounded to nearest while all the other type pairs,
the scalar functions, the CPU back end and the other platforms truncate. On
AVX-512 SKYLAKE u64 was moreover converted to f64 as if it were signed.
---
 egg/platform_x86.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 5943ff5..5bca84d 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2356,9 +2356,12 @@ def convert1(simd_ext, from_typ, to_typ):
                  format(**fmtspec)
     if to_typ == 'f64' or from_typ == 'f64':
         if simd_ext == 'avx512_skylake':
-            return 'return _mm512_cvt{from_suf}{to_suf}({in0});'. \
-                   format(from_suf=suf_ep(from_typ)[1:], to_suf=suf_ep(to_typ),
-                          **fmtspec)
+            if to_typ == 'f64':
+                return 'return _mm512_cvtep{from_typ}_pd({in0});'. \
+                       format(**fmtspec)
+            else:
+                return 'return _mm512_cvttpd_ep{to_typ}({in0});'. \
+                       format(**fmtspec)
         else:
             return emulate
     if to_typ == 'f32' and from_typ == 'i32':
@@ -2369,12 +2372,12 @@ def convert1(simd_ext, from_typ, to_typ):
         if simd_ext in avx512:
             return 'return _mm512_cvtepu32_ps({in0});'.format(**fmtspec)
     if to_typ == 'i32' and from_typ == 'f32':
-        return 'return {pre}cvtps_epi32({in0});'.format(**fmtspec)
+        return 'return {pre}cvttps_epi32({in0});'.format(**fmtspec)
     if to_typ == 'u32' and from_typ == 'f32':
         if simd_ext in sse + avx:
             return emulate
         if simd_ext in avx512:
-            return 'return _mm512_cvtps_epu32({in0});'.format(**fmtspec)
+            return 'return _mm512_cvttps_epu32({in0});'.format(**fmtspec)
 
 # -----------------------------------------------------------------------------
 # Reciprocal (at least 11 bits of precision)
-- 
2.43.0


From 36dfe55f9dd05090b1e423dc386dce393b6a25a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:33 +0000
Subject: [PATCH 07/35] fix: widening f32 to 64-bit integers and narrowing i64
 to f32

upcvt from f32 to i64 and u64 went through 32-bit integers, losing every
value beyond their range, and on AVX-512 downcvt from i64 to f32 did the same.
---
 egg/platform_x86.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 5bca84d..b54d3a4 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2854,9 +2854,9 @@ def upcvt1(simd_ext, from_typ, to_typ):
     else:
         from_typ2 = from_typ[0] + str(int(fmtspec['typnbits']) * 2)
         if from_typ not in common.iutypes:
-            # getting here means that from_typ=f32 and to_typ=f64
+            # getting here means that from_typ=f32 and to_typ=i64 or u64
             with_intrinsic = \
-            '''nsimd_{simd_ext}_vf64x2 ret;
+            '''nsimd_{simd_ext}_v{to_typ}x2 ret;
                ret.v0 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
                             {lower_half}));
                ret.v1 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
@@ -2865,8 +2865,8 @@ def upcvt1(simd_ext, from_typ, to_typ):
                format(upper_half=upper_half, lower_half=lower_half,
                       from_typ2=from_typ2, suf_epep=suf_epep, **fmtspec)
 
-    # When no intrinsic is given for going from integers to floating or
-    # from floating to integer we can go through a cvt
+    # When no intrinsic is given for going from integers to floating we can
+    # go through a cvt
     if to_typ in common.ftypes:
         int_float = \
         '''nsimd_{simd_ext}_v{to_typ}x2 ret;
@@ -2877,13 +2877,6 @@ def upcvt1(simd_ext, from_typ, to_typ):
            return ret;'''. \
            format(int_typ=from_typ[0] + to_typ[1:], lower_half=lower_half,
                   upper_half=upper_half, **fmtspec)
-    else:
-        int_float = \
-        '''return nsimd_upcvt_{simd_ext}_{to_typ}_{int_typ}(
-                      nsimd_cvt_{simd_ext}_{int_typ}_{from_typ}({in0}));'''. \
-                      format(int_typ=to_typ[0] + from_typ[1:],
-                             lower_half=lower_half, upper_half=upper_half,
-                             **fmtspec)
 
     # When no intrinsic is given we can use the trick of falling back to
     # the lower SIMD extension
@@ -2903,8 +2896,10 @@ def upcvt1(simd_ext, from_typ, to_typ):
     # return C code
     if from_typ == 'i32' and to_typ == 'f64':
         return with_intrinsic
-    if (from_typ in common.ftypes and to_typ in common.iutypes) or \
-       (from_typ in common.iutypes and to_typ in common.ftypes):
+    if from_typ in common.ftypes and to_typ in common.iutypes:
+        # the range of integers of the size of from_typ is too small
+        return with_intrinsic
+    if from_typ in common.iutypes and to_typ in common.ftypes:
         return int_float
     # if simd_ext == 'sse2':
     if simd_ext in sse:
@@ -3000,12 +2995,6 @@ def downcvt1(opts, simd_ext, from_typ, to_typ):
             return 'return {};'.format(setr(simd_ext, to_typ,
                    '{pre}cvtep{from_typ}_ep{to_typ}({in0})'.format(**fmtspec),
                    '{pre}cvtep{from_typ}_ep{to_typ}({in1})'.format(**fmtspec)))
-        elif from_typ == 'i64' and to_typ == 'f32':
-            return 'return nsimd_cvt_{simd_ext}_f32_i32({});'. \
-                   format(setr(simd_ext, from_typ,
-                          '{pre}cvtepi64_epi32({in0})'.format(**fmtspec),
-                          '{pre}cvtepi64_epi32({in1})'.format(**fmtspec)),
-                          **fmtspec)
 
     # and then emulation
     le_to_typ = 2 * int(fmtspec['le'])
-- 
2.43.0


From 4a761b193915a35a2fef12d74f68ad1942dd149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:43 +0000
Subject: [PATCH 08/35] fix: masked stores on SSE do not touch inactive lanes

maskmovdqu may fault on the bytes whose mask is zero, so that masked stores
for a loop tail at the end of a mapping crashed (SSE, and 8 and 16-bit types
on AVX and AVX2).
---
 egg/platform_x86.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index b54d3a4..2160d5d 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -1079,14 +1079,23 @@ def mask_store(simd_ext, typ, aligned):
                   }}'''.format(store_mask=store_mask, le2=le2, **fmtspec)
     suf2 = 'ps' if typ[1:] == '32' else 'pd'
     if simd_ext in sse:
+        # maskmovdqu is not used here because it may fault on the bytes of
+        # inactive lanes
         if typ in common.iutypes:
-            return '_mm_maskmoveu_si128({in2}, {in0}, (char *){in1});'. \
-                   format(**fmtspec)
+            cast_mask, cast_buf = '', '(__m128i *)'
         else:
-            return '''_mm_maskmoveu_si128(_mm_cast{suf2}_si128({in2}),
-                                          _mm_cast{suf2}_si128({in0}),
-                                          (char *){in1});'''. \
-                                          format(suf2=suf2, **fmtspec)
+            cast_mask, cast_buf = '_mm_cast{}_si128'.format(suf2), ''
+        return '''int i;
+                  {utyp} mask[{le}];
+                  {typ} buf[{le}];
+                  _mm_storeu_si128((__m128i *)mask, {cast_mask}({in0}));
+                  _mm_storeu{sufsi}({cast_buf}buf, {in2});
+                  for (i = 0; i < {le}; i++) {{
+                    if (mask[i] != ({utyp})0) {{
+                      {in1}[i] = buf[i];
+                    }}
+                  }}'''.format(utyp='u' + typ[1:], cast_mask=cast_mask,
+                               cast_buf=cast_buf, **fmtspec)
     if typ in ['i8', 'u8', 'i16', 'u16'] and simd_ext != 'avx512_skylake':
         if simd_ext == 'avx512_knl':
             return \
-- 
2.43.0


From eedcad4e55d8a43ba4308bcc382d69e52b475a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:12 +0000
Subject: [PATCH 09/35] fix: loop tail masks for indices close to INT_MAX

The index plus the lane number overflowed in the CPU back end and for
unrolled packs, which made inactive lanes active.
---
 egg/gen_adv_cxx_api.py | 5 +++--
 egg/platform_cpu.py    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index d9bee52..06731fa 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -57,9 +57,10 @@ def get_cxx_advanced_generic(operator):
             elif operator.name in ['gather_linear', 'scatter_linear']:
                 return 'a{} + len_ * a1'.format(arg[0])
             return 'a{} + len_'.format(arg[0])
-        elif operator.name == 'mask_for_loop_tail' and arg[0] == 0 and \
+        elif operator.name == 'mask_for_loop_tail' and arg[0] == 1 and \
              N != '1':
-            return 'a0 + len(T(), SimdExt())'
+            # moving the end instead of the index cannot overflow
+            return 'a1 - len(T(), SimdExt())'
         else:
             return 'a{}'.format(arg[0])
     vars1 = [var(i, '1') for i in args_list] + ['T()'] + \
diff --git a/egg/platform_cpu.py b/egg/platform_cpu.py
index c94f50b..23d16e3 100644
--- a/egg/platform_cpu.py
+++ b/egg/platform_cpu.py
@@ -537,7 +537,7 @@ def unzip(from_typ):
 
 def mask_for_loop_tail(typ):
     return func_body(
-           'ret.v{{i}} = {in0} + {{i}} < {in1} ? (u32)-1 : (u32)0;'. \
+           'ret.v{{i}} = {in0} < {in1} - {{i}} ? (u32)-1 : (u32)0;'. \
            format(**fmtspec), typ, True)
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 42c0c2766cabcac5f492134be5054ffe8e03504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:05 +0000
Subject: [PATCH 10/35] fix: nsimd_isnan_f16 and nsimd_isinf_f16 look at the
 whole mantissa

---
 include/nsimd/nsimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 36c6dd1..379a20e 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -2115,7 +2115,7 @@ void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, unaligned) {
 NSIMD_INLINE int nsimd_isnan_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) != 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) & 0x3FF) != 0u)) {
     return 1;
   } else {
     return 0;
@@ -2145,7 +2145,7 @@ NSIMD_INLINE int nsimd_isnan_f64(f64 a) {
 NSIMD_INLINE int nsimd_isinf_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) == 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) & 0x3FF) == 0u)) {
     return 1;
   } else {
     return 0;
-- 
2.43.0


From c8d4dd0850a1bc4aabcacf3dc9219534e27a35c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:05 +0000
Subject: [PATCH 11/35] fix: ufp never returns a negative number of bits

---
 src/ufp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ufp.cpp b/src/ufp.cpp
index a5edd36..f2977f8 100644
--- a/src/ufp.cpp
+++ b/src/ufp.cpp
@@ -54,7 +54,7 @@ int ufp(T a_, T b_) {
   }
   d = (d >= 0 ? d : -d);
   int i = 0;
-  for (; i <= MantissaSize + 1 && d >= ((i64)1 << i); i++)
+  for (; i <= MantissaSize && d >= ((i64)1 << i); i++)
     ;
   return (int)(MantissaSize + 1 - i);
 }
-- 
2.43.0


From e3b7b8112c36b3b777db1a40e5a9a675ad3c06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:50 +0000
Subject: [PATCH 12/35] fix: scalar on the left of logical operators with packl
 does not compile

---
 egg/gen_friendly_but_not_optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_friendly_but_not_optimized.py b/egg/gen_friendly_but_not_optimized.py
index 5ffbe5f..2999929 100644
--- a/egg/gen_friendly_but_not_optimized.py
+++ b/egg/gen_friendly_but_not_optimized.py
@@ -54,7 +54,7 @@ def get_impl(operator):
         template <typename S, typename T, int N, typename SimdExt>
         packl<T, N, SimdExt>
         operator{cxx_op}(S s, packl<T, N, SimdExt> const &v) {{
-          return {op_name}(pack<T, N, SimdExt>(bool(s)), v);
+          return {op_name}(packl<T, N, SimdExt>(bool(s)), v);
         }}
 
         template <typename T, typename S, int N, typename SimdExt>
-- 
2.43.0


From 5fadd86f5a56d3c7c4fbb9a46babf028a5de1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:50 +0000
Subject: [PATCH 13/35] fix: compound assignment and to_pack_interleave of
 packs of a named extension or of packx1

---
 include/nsimd/cxx_adv_api.hpp | 37 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 7331bae..ab6eb86 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -604,14 +604,14 @@ namespace nsimd {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator+=(pack<T, 1, SimdExt> const &other) {
-  this->car = add(this->car, other.car, T());
+  this->car = add(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator+=(pack<T, N, SimdExt> const &other) {
-  this->car = add(this->car, other.car, T());
+  this->car = add(this->car, other.car, T(), SimdExt());
   this->cdr += other.cdr;
   return *this;
 }
@@ -620,14 +620,14 @@ operator+=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator-=(pack<T, 1, SimdExt> const &other) {
-  this->car = sub(this->car, other.car, T());
+  this->car = sub(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator-=(pack<T, N, SimdExt> const &other) {
-  this->car = sub(this->car, other.car, T());
+  this->car = sub(this->car, other.car, T(), SimdExt());
   this->cdr -= other.cdr;
   return *this;
 }
@@ -636,14 +636,14 @@ operator-=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator*=(pack<T, 1, SimdExt> const &other) {
-  this->car = mul(this->car, other.car, T());
+  this->car = mul(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator*=(pack<T, N, SimdExt> const &other) {
-  this->car = mul(this->car, other.car, T());
+  this->car = mul(this->car, other.car, T(), SimdExt());
   this->cdr *= other.cdr;
   return *this;
 }
@@ -652,14 +652,14 @@ operator*=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator/=(pack<T, 1, SimdExt> const &other) {
-  this->car = div(this->car, other.car, T());
+  this->car = div(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator/=(pack<T, N, SimdExt> const &other) {
-  this->car = div(this->car, other.car, T());
+  this->car = div(this->car, other.car, T(), SimdExt());
   this->cdr /= other.cdr;
   return *this;
 }
@@ -668,14 +668,14 @@ operator/=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator|=(pack<T, 1, SimdExt> const &other) {
-  this->car = orb(this->car, other.car, T());
+  this->car = orb(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator|=(pack<T, N, SimdExt> const &other) {
-  this->car = orb(this->car, other.car, T());
+  this->car = orb(this->car, other.car, T(), SimdExt());
   this->cdr |= other.cdr;
   return *this;
 }
@@ -684,14 +684,14 @@ operator|=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator&=(pack<T, 1, SimdExt> const &other) {
-  this->car = andb(this->car, other.car, T());
+  this->car = andb(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator&=(pack<T, N, SimdExt> const &other) {
-  this->car = andb(this->car, other.car, T());
+  this->car = andb(this->car, other.car, T(), SimdExt());
   this->cdr &= other.cdr;
   return *this;
 }
@@ -700,14 +700,14 @@ operator&=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator^=(pack<T, 1, SimdExt> const &other) {
-  this->car = xorb(this->car, other.car, T());
+  this->car = xorb(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator^=(pack<T, N, SimdExt> const &other) {
-  this->car = xorb(this->car, other.car, T());
+  this->car = xorb(this->car, other.car, T(), SimdExt());
   this->cdr ^= other.cdr;
   return *this;
 }
@@ -715,13 +715,13 @@ operator^=(pack<T, N, SimdExt> const &other) {
 // left shift
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::operator<<=(int s) {
-  this->car = shl(this->car, s, T());
+  this->car = shl(this->car, s, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::operator<<=(int s) {
-  this->car = shl(this->car, s, T());
+  this->car = shl(this->car, s, T(), SimdExt());
   this->cdr <<= s;
   return *this;
 }
@@ -729,13 +729,13 @@ pack<T, N, SimdExt> &pack<T, N, SimdExt>::operator<<=(int s) {
 // right shift
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::operator>>=(int s) {
-  this->car = shr(this->car, s, T());
+  this->car = shr(this->car, s, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::operator>>=(int s) {
-  this->car = shr(this->car, s, T());
+  this->car = shr(this->car, s, T(), SimdExt());
   this->cdr >>= s;
   return *this;
 }
@@ -1341,7 +1341,6 @@ template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> to_pack_interleave(const packx1<T, 1, SimdExt> &packx1_) {
   pack<T, 1, SimdExt> pack_1;
   pack_1.car = packx1_.v0.car;
-  pack_1.cdr = packx1_.v0.cdr;
   return pack_1;
 }
 
-- 
2.43.0


From e7410819250687f8883061d57631eec983cb1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 14/35] fix: C++ if_else, logical load and store2/3/4 overloads
 of nsimd.h that do not compile

---
 include/nsimd/nsimd.h | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 379a20e..7fb9bb5 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1749,12 +1749,12 @@ T to(S value) {
 
 #define vif_else(a0, a1, a2, typel, type)                                     \
   NSIMD_PP_CAT_4(nsimd_if_else1_, NSIMD_SIMD, _, type)                        \
-  (NSIMD_PP_CAT_6(nsimd_vreinterpretl_, NSIMD_SIMD, _, type, _, typel)(a0),   \
+  (NSIMD_PP_CAT_6(nsimd_reinterpretl_, NSIMD_SIMD, _, type, _, typel)(a0),   \
    a1, a2)
 
 #define vif_else_e(a0, a1, a2, typel, type, simd_ext)                         \
   NSIMD_PP_CAT_4(nsimd_if_else1_, simd_ext, _, type)                          \
-  (NSIMD_PP_CAT_6(nsimd_vreinterpretl_, simd_ext, _, type, _, typel)(a0), a1, \
+  (NSIMD_PP_CAT_6(nsimd_reinterpretl_, simd_ext, _, type, _, typel)(a0), a1, \
    a2)
 
 #if NSIMD_CXX > 0
@@ -1813,10 +1813,10 @@ if_else(NSIMD_NSVL(L, SimdExt) a0, NSIMD_NSV(T, SimdExt) a1,
   NSIMD_PP_CAT_6(nsimd_load4, alignment, _, simd_ext, _, type)(a0)
 
 #define vloadl(a0, type, alignment)                                           \
-  NSIMD_PP_CAT_6(nsimd_loadl, alignment_, NSIMD_SIMD, _, type)(a0)
+  NSIMD_PP_CAT_6(nsimd_loadl, alignment, _, NSIMD_SIMD, _, type)(a0)
 
 #define vloadl_e(a0, type, simd_ext, alignment)                               \
-  NSIMD_PP_CAT_6(nsimd_loadl, alignment_, simd_ext, _, type)(a0)
+  NSIMD_PP_CAT_6(nsimd_loadl, alignment, _, simd_ext, _, type)(a0)
 
 #define vstore(a0, a1, type, alignment)                                       \
   NSIMD_PP_CAT_6(nsimd_store, alignment, _, NSIMD_SIMD, _, type)(a0, a1)
@@ -1825,24 +1825,24 @@ if_else(NSIMD_NSVL(L, SimdExt) a0, NSIMD_NSV(T, SimdExt) a1,
   NSIMD_PP_CAT_6(nsimd_store, alignment, _, simd_ext, _, type)(a0, a1)
 
 #define vstore2(a0, a1, a2, type, alignment)                                  \
-  NSIMD_PP_CAT_4(nsimd_store2, alignment, _, NSIMD_SIMD, _, type)(a0, a1, a2)
+  NSIMD_PP_CAT_6(nsimd_store2, alignment, _, NSIMD_SIMD, _, type)(a0, a1, a2)
 
 #define vstore2_e(a0, a1, a2, type, simd_ext, alignment)                      \
-  NSIMD_PP_CAT_4(nsimd_store2, alignment, _, simd_ext, _, type)(a0, a1, a2)
+  NSIMD_PP_CAT_6(nsimd_store2, alignment, _, simd_ext, _, type)(a0, a1, a2)
 
 #define vstore3(a0, a1, a2, a3, type, alignment)                              \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
+  NSIMD_PP_CAT_6(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
   (a0, a1, a2, a3)
 
 #define vstore3_e(a0, a1, a2, a3, type, simd_ext, alignment)                  \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, simd_ext, _, type)(a0, a1, a2, a3)
+  NSIMD_PP_CAT_6(nsimd_store3, alignment, _, simd_ext, _, type)(a0, a1, a2, a3)
 
 #define vstore4(a0, a1, a2, a3, a4, type, alignment)                          \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
+  NSIMD_PP_CAT_6(nsimd_store4, alignment, _, NSIMD_SIMD, _, type)             \
   (a0, a1, a2, a3, a4)
 
 #define vstore4_e(a0, a1, a2, a3, a4, type, simd_ext, alignment)              \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, simd_ext, _, type)               \
+  NSIMD_PP_CAT_6(nsimd_store4, alignment, _, simd_ext, _, type)               \
   (a0, a1, a2, a3, a4)
 
 #define vstorel(a0, a1, type, alignment)                                      \
@@ -1952,25 +1952,25 @@ load4(const T *ptr, T, SimdExt, unaligned) {
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
 NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, aligned) {
+loadl(const T *ptr, T, aligned) {
   return loadla(ptr, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
 NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, unaligned) {
+loadl(const T *ptr, T, unaligned) {
   return loadlu(ptr, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, SimdExt, aligned) {
+NSIMD_NSVL(T, SimdExt)
+loadl(const T *ptr, T, SimdExt, aligned) {
   return loadla(ptr, T(), SimdExt());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, SimdExt, unaligned) {
+NSIMD_NSVL(T, SimdExt)
+loadl(const T *ptr, T, SimdExt, unaligned) {
   return loadlu(ptr, T(), SimdExt());
 }
 
@@ -2071,22 +2071,22 @@ void store4(T *ptr, NSIMD_NSV(T, SimdExt) a1, NSIMD_NSV(T, SimdExt) a2,
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
-void storel(T *ptr, NSIMD_NSV(T, NSIMD_SIMD) a1, T, aligned) {
+void storel(T *ptr, NSIMD_NSVL(T, NSIMD_SIMD) a1, T, aligned) {
   storela(ptr, a1, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
-void storel(T *ptr, NSIMD_NSV(T, NSIMD_SIMD) a1, T, unaligned) {
+void storel(T *ptr, NSIMD_NSVL(T, NSIMD_SIMD) a1, T, unaligned) {
   storelu(ptr, a1, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, aligned) {
+void storel(T *ptr, NSIMD_NSVL(T, SimdExt) a1, T, SimdExt, aligned) {
   storela(ptr, a1, T(), SimdExt());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, unaligned) {
+void storel(T *ptr, NSIMD_NSVL(T, SimdExt) a1, T, SimdExt, unaligned) {
   storelu(ptr, a1, T(), SimdExt());
 }
 
-- 
2.43.0


From f0e33336efd3009c9a1eed244840b4f550a308c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 15/35] fix: aligned forms of the advanced C API name macros
 that do not exist

---
 include/nsimd/c_adv_api.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/nsimd/c_adv_api.h b/include/nsimd/c_adv_api.h
index b09d204..7a5daf8 100644
--- a/include/nsimd/c_adv_api.h
+++ b/include/nsimd/c_adv_api.h
@@ -63,11 +63,16 @@ NSIMD_INLINE void nsimd_c11_type_unsupported(void) {}
 #define nsimd_packx3(type) NSIMD_PP_CAT_2(nsimd_packx3_, type)
 #define nsimd_packx4(type) NSIMD_PP_CAT_2(nsimd_packx4_, type)
 
-#define nsimd_pack_a(type, simd_ext) NSIMD_PP_CAT_3(nsimd_pack_, type)
-#define nsimd_packl_a(type, simd_ext) NSIMD_PP_CAT_3(nsimd_packl_, type)
-#define nsimd_packx2_a(type, simd_ext) NSIMD_PP_CAT_3(nsimd_packx2_, type)
-#define nsimd_packx3_a(type, simd_ext) NSIMD_PP_CAT_3(nsimd_packx3_, type)
-#define nsimd_packx4_a(type, simd_ext) NSIMD_PP_CAT_3(nsimd_packx4_, type)
+#define nsimd_pack_a(type, simd_ext)                                    \
+  NSIMD_PP_CAT_4(nsimd_pack_, type, _, simd_ext)
+#define nsimd_packl_a(type, simd_ext)                                    \
+  NSIMD_PP_CAT_4(nsimd_packl_, type, _, simd_ext)
+#define nsimd_packx2_a(type, simd_ext)                                    \
+  NSIMD_PP_CAT_4(nsimd_packx2_, type, _, simd_ext)
+#define nsimd_packx3_a(type, simd_ext)                                    \
+  NSIMD_PP_CAT_4(nsimd_packx3_, type, _, simd_ext)
+#define nsimd_packx4_a(type, simd_ext)                                    \
+  NSIMD_PP_CAT_4(nsimd_packx4_, type, _, simd_ext)
 
 #endif /* NSIMD_C >= 2011 */
 
-- 
2.43.0


From f9190075885bc619c2a9257301c162b1703e346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 16/35] fix: allocation sizes that overflow, and the allocator
 reporting failure as NULL

---
 include/nsimd/nsimd.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 7fb9bb5..9bd4b54 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1450,6 +1450,9 @@ NSIMD_INLINE void aligned_free(void *ptr) {
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T> T *aligned_alloc_for(nsimd_nat n) {
+  if (n < 0 || std::size_t(n) > (std::size_t(-1) >> 1) / sizeof(T)) {
+    return NULL;
+  }
   return (T *)aligned_alloc(n * (nsimd_nat)sizeof(T));
 }
 
@@ -1490,7 +1493,11 @@ public:
   const_pointer address(const_reference r) { return &r; }
 
   pointer allocate(size_type n) {
-    return reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    pointer ptr = aligned_alloc_for<T>((nsimd_nat)n);
+    if (ptr == NULL) {
+      throw std::bad_alloc();
+    }
+    return ptr;
   }
 
   pointer allocate(size_type n, const void *) { return allocate(n); }
-- 
2.43.0


From 720a87398503fae4f59988c2e1f7f76bc8ad3bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 17/35] fix: k_while runs for inactive lanes, and k_set on a
 boolean overwrites inactive lanes (host)

---
 include/nsimd/modules/spmd.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 10eb3d9..2550ef7 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -594,16 +594,18 @@ void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var, U value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(
-      mask && nsimd::pack<S, N, SimdExt>(int(value)));
+            nsimd::packl<S, N, SimdExt> &var,
+            nsimd::packl<U, N, SimdExt> const &value) {
+  typedef nsimd::packl<S, N, SimdExt> packl_t;
+  packl_t mask_ = nsimd::reinterpretl<packl_t>(mask);
+  var = nsimd::orl(nsimd::andl(mask_, nsimd::reinterpretl<packl_t>(value)),
+                   nsimd::andnotl(var, mask_));
 }
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var,
-            nsimd::packl<U, N, SimdExt> const &value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask && value);
+            nsimd::packl<S, N, SimdExt> &var, U value) {
+  k_set_(mask, var, nsimd::packl<S, N, SimdExt>(bool(value)));
 }
 
 #define k_set(var, value) spmd::k_set_(spmd_mask_, var, value)
@@ -639,17 +641,20 @@ inline bool any(bool a) { return a; }
     k_bool spmd_middle_mask_ = spmd_mask_;                                    \
     k_bool spmd_off_lanes_break_(false);                                      \
     (void)spmd_off_lanes_break_;                                              \
-    k_bool spmd_off_lanes_continue_(false);                                   \
-    (void)spmd_off_lanes_continue_;                                           \
     {                                                                         \
-      while (spmd::any(cond)) {                                               \
+      for (;;) {                                                              \
+        k_bool spmd_off_lanes_continue_(false);                               \
+        (void)spmd_off_lanes_continue_;                                       \
         k_bool spmd_cond_ =                                                   \
             spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(    \
                 cond);                                                        \
         {                                                                     \
           k_bool spmd_mask_ = spmd_cond_ && spmd_middle_mask_;                \
           spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_break_);  \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
+          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_); \
+          if (!spmd::any(spmd_mask_)) {                                       \
+            break;                                                            \
+          }
 
 // break statement (k_break)
 #define k_break                                                               \
-- 
2.43.0


From 8a1c73cbcd2c31cf4452150bfebe50aa92d1592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 18/35] fix: k_unmasked_store of a scalar value does not
 compile

---
 include/nsimd/modules/spmd.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 2550ef7..2c8ffb5 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -482,8 +482,8 @@ template <typename KernelType> struct load_helper {};
   spmd::store_helper<spmd_KernelType_>::impl(spmd_mask_, &base_addr[spmd_i_], \
                                              value)
 #define k_unmasked_store(base_addr, value)                                    \
-  spmd::store_helper<spmd_KernelType_>::unmasked_impl(&base_addr[spmd_i_],    \
-                                                      value)
+  spmd::store_helper<spmd_KernelType_>::template unmasked_impl<spmd_N_>(      \
+      &base_addr[spmd_i_], value)
 
 #define k_load(base_addr)                                                     \
   spmd::load_helper<spmd_KernelType_>::impl(spmd_mask_, &base_addr[spmd_i_])
@@ -500,7 +500,7 @@ template <> struct store_helper<KernelScalar> {
     }
   }
 
-  template <typename T, typename S>
+  template <int N, typename T, typename S>
   static void unmasked_impl(T *addr, S value) {
     *addr = nsimd::to<T>(value);
   }
@@ -534,14 +534,14 @@ template <> struct store_helper<KernelSIMD> {
                        nsimd::pack<S, N, SimdExt>(nsimd::to<S>(value)));
   }
 
-  template <typename T, int N, typename SimdExt>
+  template <int N, typename T, typename SimdExt>
   static void unmasked_impl(T *addr, nsimd::pack<T, N, SimdExt> const &value) {
     nsimd::storeu(addr, value);
   }
 
-  template <typename T, typename S, int N, typename SimdExt>
+  template <int N, typename T, typename S>
   static void unmasked_impl(T *addr, S value) {
-    nsimd::storeu(addr, nsimd::pack<T, N, SimdExt>(nsimd::to<T>(value)));
+    nsimd::storeu(addr, nsimd::pack<T, N>(nsimd::to<T>(value)));
   }
 };
 
-- 
2.43.0


From c2b32ea78a91aa9cd04206c34835d9b196f7bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 19/35] fix: GPU branch of SPMD: device functions without
 thread index, k_return, templated launches

---
 include/nsimd/modules/spmd.hpp | 54 ++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 2c8ffb5..2ddf341 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -115,34 +115,41 @@ namespace spmd {
 
 // device function
 #define spmd_dev_func(type_name, ...)                                         \
-  template <int spmd_ScalarBits_> __device__ type_name(__VA_ARGS__) {
+  template <int spmd_ScalarBits_>                                             \
+  __device__ type_name(size_t spmd_i_, __VA_ARGS__) {                         \
+    (void)spmd_i_;
 
 // templated device function
 #define spmd_tmpl_dev_func(type_name, template_argument, ...)                 \
   template <typename template_argument, int spmd_ScalarBits_>                 \
-  __device__ type_name(__VA_ARGS__) {
+  __device__ type_name(size_t spmd_i_, __VA_ARGS__) {                         \
+    (void)spmd_i_;
 
 #else
 
 // device function
 #define spmd_dev_func(type_name, ...)                                         \
-  template <int spmd_ScalarBits_> type_name(__VA_ARGS__) {
+  template <int spmd_ScalarBits_>                                             \
+  type_name(size_t spmd_i_, __VA_ARGS__) {                                    \
+    (void)spmd_i_;
 
 // templated device function
 #define spmd_tmpl_dev_func(type_name, template_argument, ...)                 \
   template <typename template_argument, int spmd_ScalarBits_>                 \
-  type_name(__VA_ARGS__) {
+  type_name(size_t spmd_i_, __VA_ARGS__) {                                    \
+    (void)spmd_i_;
 
 #endif
 
 #define spmd_dev_func_end }
 
 // call spmd_dev_function
-#define spmd_call_dev_func(name, ...) name<spmd_ScalarBits_>(__VA_ARGS__)
+#define spmd_call_dev_func(name, ...)                                         \
+  name<spmd_ScalarBits_>((size_t)spmd_i_, __VA_ARGS__)
 
 // call templated spmd_dev_function
 #define spmd_call_tmpl_dev_func(name, template_argument, ...)                 \
-  name<template_argument, spmd_ScalarBits_>(__VA_ARGS__)
+  name<template_argument, spmd_ScalarBits_>((size_t)spmd_i_, __VA_ARGS__)
 
 #if defined(NSIMD_CUDA)
 
@@ -153,6 +160,14 @@ namespace spmd {
       <<<(unsigned int)nsimd_kernel_param(n, threads_per_block),              \
          (unsigned int)(threads_per_block)>>>(__VA_ARGS__, (int)n)
 
+// launch 1d templated kernel CUDA
+#define spmd_launch_tmpl_kernel_1d(name, template_argument,                   \
+                                   spmd_scalar_bits_, threads_per_block, n,   \
+                                   ...)                                       \
+  name<template_argument, spmd_scalar_bits_>                                  \
+      <<<(unsigned int)nsimd_kernel_param(n, threads_per_block),              \
+         (unsigned int)(threads_per_block)>>>(__VA_ARGS__, (int)n)
+
 #elif defined(NSIMD_ROCM)
 
 // launch 1d kernel ROCm
@@ -163,6 +178,15 @@ namespace spmd {
                      (size_t)(threads_per_block), 0, NULL, __VA_ARGS__,       \
                      (size_t)n)
 
+// launch 1d templated kernel ROCm
+#define spmd_launch_tmpl_kernel_1d(name, template_argument,                   \
+                                   spmd_scalar_bits_, threads_per_block, n,   \
+                                   ...)                                       \
+  hipLaunchKernelGGL((name<template_argument, spmd_scalar_bits_>),            \
+                     (size_t)nsimd_kernel_param(n, threads_per_block),        \
+                     (size_t)(threads_per_block), 0, NULL, __VA_ARGS__,       \
+                     (size_t)n)
+
 #else
 
 // launch 1d kernel oneAPI
@@ -178,6 +202,21 @@ namespace spmd {
                  })                                                           \
       .wait_and_throw();
 
+// launch 1d templated kernel oneAPI
+#define spmd_launch_tmpl_kernel_1d(name, template_argument,                   \
+                                   spmd_scalar_bits_, threads_per_block, n,   \
+                                   ...)                                       \
+  size_t total_num_threads =                                                  \
+      (size_t)nsimd_kernel_param(n, threads_per_block);                       \
+  sycl::queue q = nsimd::oneapi::default_queue();                             \
+  q.parallel_for(sycl::nd_range<1>(sycl::range<1>(total_num_threads),         \
+                                   sycl::range<1>(threads_per_block)),        \
+                 [=](sycl::nd_item<1> item) {                                 \
+                   name<template_argument, spmd_scalar_bits_>(                \
+                       __VA_ARGS__, (size_t)n, item);                         \
+                 })                                                           \
+      .wait_and_throw();
+
 #endif
 
 // supported types (generic)
@@ -254,6 +293,9 @@ template <> struct type_t<64> {
 // continue statement (k_continue)
 #define k_continue continue
 
+// return statement (k_return)
+#define k_return return
+
 // endwhile statement (k_endwhile)
 #define k_endwhile }
 
-- 
2.43.0


From b664fd546e6abfe10c56ec8ac2c6ec525a7e640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 20/35] fix: TET1D sizes of expressions made of literals,
 compute_size not inline

---
 include/nsimd/modules/tet1d.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 1bd3c56..71c2340 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -138,6 +138,7 @@ template <typename Pack, typename T, typename Expr>
 void cpu_kernel_component_wise(T *dst, Expr const &expr, nsimd::nat n) {
   nsimd::nat i;
   int len = nsimd::len(Pack());
+  assert(n >= 0);
   for (i = 0; i + len < n; i += len) {
     nsimd::storeu(&dst[i], expr.template simd_get<Pack>(i));
   }
@@ -152,6 +153,7 @@ void cpu_kernel_component_wise_mask(T *dst, Mask const &mask, Expr const &expr,
                                     nsimd::nat n) {
   nsimd::nat i;
   int len = nsimd::len(Pack());
+  assert(n >= 0);
   for (i = 0; i + len < n; i += len) {
     nsimd::storeu(&dst[i], nsimd::if_else(mask.template simd_get<Pack>(i),
                                           expr.template simd_get<Pack>(i),
@@ -169,9 +171,8 @@ void cpu_kernel_component_wise_mask(T *dst, Mask const &mask, Expr const &expr,
 // ----------------------------------------------------------------------------
 // helper for computing sizes of 1D vectors
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
-  assert(sz1 >= 0 || sz2 >= 0);
-  assert((sz1 < 0 && sz2 >= 0) || (sz1 >= 0 && sz2 < 0) || (sz1 == sz2));
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
+  assert(sz1 < 0 || sz2 < 0 || sz1 == sz2);
   if (sz1 < 0) {
     return sz2;
   } else {
@@ -179,7 +180,8 @@ nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
   }
 }
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2, nsimd::nat sz3) {
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2,
+                               nsimd::nat sz3) {
   return compute_size(compute_size(sz1, sz2), sz3);
 }
 
-- 
2.43.0


From 5e27496a83b819516bd857767ed12c672923616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 21/35] fix: TET1D infix operators with literals, and the shift
 operators

---
 egg/modules/tet1d/hatch.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/egg/modules/tet1d/hatch.py b/egg/modules/tet1d/hatch.py
index fcab484..0c2fa65 100644
--- a/egg/modules/tet1d/hatch.py
+++ b/egg/modules/tet1d/hatch.py
@@ -811,28 +811,40 @@ def gen_functions(opts):
               return tet1d::{op_name}(node);
             }}'''.format(op_name=op_name,
                          cxx_operator=operator.cxx_operator);
-        if operator.cxx_operator != None and len(operator.params) == 3:
+        if op_name in ['shl', 'shr']:
+            functions += \
+            '''
+
+            template <typename Op, typename Left, typename Right,
+                      typename Extra>
+            node<{op_name}_t, node<Op, Left, Right, Extra>, none_t, none_t>
+            operator{cxx_operator}(node<Op, Left, Right, Extra> const &node,
+                                   int s) {{
+              return tet1d::{op_name}(node, s);
+            }}'''.format(op_name=op_name,
+                         cxx_operator=operator.cxx_operator);
+        elif operator.cxx_operator != None and len(operator.params) == 3:
             functions += '''
 
             template <typename Op, typename Left, typename Right,
                       typename Extra, typename T>
             node<{op_name}_t, node<Op, Left, Right, Extra>,
                  node<scalar_t, none_t, none_t,
-                      typename node<Op, Left, Right, Extra>::in_type>, none_t>
+                      typename node<Op, Left, Right, Extra>::out_type>, none_t>
             operator{cxx_operator}(node<Op, Left, Right, Extra> const &node,
                                    T a) {{
-              typedef typename tet1d::node<Op, Left, Right, Extra>::in_type S;
+              typedef typename tet1d::node<Op, Left, Right, Extra>::out_type S;
               return tet1d::{op_name}(node, literal_to<S>::impl(a));
             }}
 
             template <typename T, typename Op, typename Left, typename Right,
                       typename Extra>
             node<{op_name}_t, node<scalar_t, none_t, none_t,
-                              typename node<Op, Left, Right, Extra>::in_type>,
+                              typename node<Op, Left, Right, Extra>::out_type>,
                  node<Op, Left, Right, Extra>, none_t>
             operator{cxx_operator}(T a,
                                    node<Op, Left, Right, Extra> const &node) {{
-              typedef typename tet1d::node<Op, Left, Right, Extra>::in_type S;
+              typedef typename tet1d::node<Op, Left, Right, Extra>::out_type S;
               return tet1d::{op_name}(literal_to<S>::impl(a), node);
             }}
 
-- 
2.43.0


From 24e08b0d3b5380a8b9be0a5be44a87b1b4699b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 22/35] fix: fixed_point pack comparisons return their argument
 type instead of logicals

---
 include/nsimd/modules/fixed_point.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/fixed_point.hpp b/include/nsimd/modules/fixed_point.hpp
index 88e9dbb..17b17d3 100644
--- a/include/nsimd/modules/fixed_point.hpp
+++ b/include/nsimd/modules/fixed_point.hpp
@@ -162,7 +162,7 @@ NSIMD_INLINE packl<T> eq(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator==(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator==(const pack<T> &a0, const pack<T> &a1) {
   return eq( a0 , a1 );
 }
 
@@ -174,7 +174,7 @@ NSIMD_INLINE packl<T> ne(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
   return ne( a0 , a1 );
 }
 
@@ -186,7 +186,7 @@ NSIMD_INLINE packl<T> le(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
   return le( a0 , a1 );
 }
 
@@ -198,7 +198,7 @@ NSIMD_INLINE packl<T> lt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<(const pack<T> &a0, const pack<T> &a1) {
   return lt( a0 , a1 );
 }
 
@@ -210,7 +210,7 @@ NSIMD_INLINE packl<T> ge(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
   return ge( a0 , a1 );
 }
 
@@ -222,7 +222,7 @@ NSIMD_INLINE packl<T> gt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>(const pack<T> &a0, const pack<T> &a1) {
   return gt( a0 , a1 );
 }
 
-- 
2.43.0


From 126b66639b5e7737f8b1f679f2be092ba4077406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 23/35] fix: fixed_point comparisons of values far apart
 overflow

---
 include/nsimd/modules/fixed_point/function/eq.hpp    |  6 +-----
 .../nsimd/modules/fixed_point/function/eq_ulp.hpp    |  6 +-----
 .../nsimd/modules/fixed_point/function/greater.hpp   | 12 ++----------
 include/nsimd/modules/fixed_point/function/less.hpp  | 12 ++----------
 4 files changed, 6 insertions(+), 30 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/eq.hpp b/include/nsimd/modules/fixed_point/function/eq.hpp
index cb62c6f..f4db655 100644
--- a/include/nsimd/modules/fixed_point/function/eq.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool operator==(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) == (b._raw & mask));
+  return a._raw == b._raw;
 }
 
 } // namespace fixed_point
diff --git a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
index 2518f5a..0d00c58 100644
--- a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
@@ -33,11 +33,7 @@ template <u8 _lf, u8 _rt>
 bool equal_ulp(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b,
                const int &ulp) {
   typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  raw_type diff = (a._raw & mask) - (b._raw & mask);
-  diff = diff >> shift_size;
+  raw_type diff = a._raw - b._raw;
   return (diff <= ulp & diff >= -ulp);
 }
 
diff --git a/include/nsimd/modules/fixed_point/function/greater.hpp b/include/nsimd/modules/fixed_point/function/greater.hpp
index 22e75fa..add8290 100644
--- a/include/nsimd/modules/fixed_point/function/greater.hpp
+++ b/include/nsimd/modules/fixed_point/function/greater.hpp
@@ -32,11 +32,7 @@ namespace fixed_point {
 
 template <u8 _lf, u8 _rt>
 bool gt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) > (b._raw & mask));
+  return a._raw > b._raw;
 }
 
 template <u8 _lf, u8 _rt>
@@ -56,11 +52,7 @@ bool operator>(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool gte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) >= (b._raw & mask));
+  return a._raw >= b._raw;
 }
 
 template <u8 _lf, u8 _rt>
diff --git a/include/nsimd/modules/fixed_point/function/less.hpp b/include/nsimd/modules/fixed_point/function/less.hpp
index b22f07c..0b0a48d 100644
--- a/include/nsimd/modules/fixed_point/function/less.hpp
+++ b/include/nsimd/modules/fixed_point/function/less.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool lt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) < (b._raw & mask));
+  return a._raw < b._raw;
 }
 
 template <u8 _lf, u8 _rt>
@@ -55,11 +51,7 @@ bool operator<(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool lte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) <= (b._raw & mask));
+  return a._raw <= b._raw;
 }
 
 template <u8 _lf, u8 _rt>
-- 
2.43.0


From 66d5097376e8aee803401998af942300a7aa91a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 24/35] fix: fixed_point conversions with 31 fractional bits or
 more overflow a shift

---
 include/nsimd/modules/fixed_point/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/fixed.hpp b/include/nsimd/modules/fixed_point/fixed.hpp
index a85cf34..1a15b54 100644
--- a/include/nsimd/modules/fixed_point/fixed.hpp
+++ b/include/nsimd/modules/fixed_point/fixed.hpp
@@ -35,11 +35,11 @@ namespace nsimd {
 namespace fixed_point {
 
 template <typename T, u8 rt> static inline T float2int(const float val) {
-  return (T)roundf(val * (float)(1 << rt));
+  return (T)roundf(val * (float)((u64)1 << rt));
 }
 
 template <typename T, u8 rt> static inline float int2float(const T val) {
-  return (float)val / (float)(1 << rt);
+  return (float)val / (float)((u64)1 << rt);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 1354802a1ec78a08c8ad485bb772f1472655554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 25/35] fix: random functions are defined in every translation
 unit that includes them

---
 egg/modules/random/hatch.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/egg/modules/random/hatch.py b/egg/modules/random/hatch.py
index 911499c..dfa02cf 100644
--- a/egg/modules/random/hatch.py
+++ b/egg/modules/random/hatch.py
@@ -45,7 +45,8 @@ class Rand(object, metaclass=MAddToRands):
         for word_size, nwords_nrounds in self.wordsize_nwords_nrounds.items():
             for nwords, list_nrounds in nwords_nrounds.items():
                 for nrounds in list_nrounds:
-                    res += self.gen_signature(nwords, word_size, nrounds)+';'
+                    res += 'inline ' + \
+                           self.gen_signature(nwords, word_size, nrounds)+';'
 
         return res
 
@@ -194,7 +195,8 @@ class Philox(Rand):
 
     mullohi='''
 #if 1
-void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
+inline void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low,
+                      pack<u32> *high) {
   nsimd::packx2<u64> a64 = nsimd::upcvt(nsimd::packx2<u64>(), a);
   nsimd::packx2<u64> b64 = nsimd::upcvt(nsimd::packx2<u64>(), b);
 
@@ -209,7 +211,8 @@ void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
 
 #else
 
-void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
+inline void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low,
+                      pack<u32> *high) {
   nsimd::pack<u32> ah = nsimd::shr(a, 16);
   nsimd::pack<u32> bh = nsimd::shr(b, 16);
 
@@ -241,7 +244,8 @@ void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
 #endif
 
 #if 0
-void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
+inline void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low,
+                      pack<u64> *high) {
   u64 a_buf[8];
   u64 b_buf[8];
   u64 low_buf[8];
@@ -262,7 +266,8 @@ void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
 
 #else
 
-void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
+inline void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low,
+                      pack<u64> *high) {
   nsimd::pack<u64> ah = nsimd::shr(a, 32);
   nsimd::pack<u64> bh = nsimd::shr(b, 32);
 
@@ -364,7 +369,7 @@ void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
             in.v3 = low0;'''.format(word_size=word_size)
 
 
-        res = self.gen_signature (nwords, word_size, nrounds)
+        res = 'inline ' + self.gen_signature(nwords, word_size, nrounds)
         res += ' {{ nsimd::packx{}<u{}> out;'.format(nwords, word_size)
         res += bump_keys_init
         res += round_init
@@ -497,7 +502,7 @@ class ThreeFry(Rand):
             nsimd::set1(nsimd::pack<u64>(), (u64)0x1BD11BDAA9FC1A22ULL);'''. \
             format(nwords=nwords)
 
-        res = self.gen_signature(nwords, word_size, nrounds)
+        res = 'inline ' + self.gen_signature(nwords, word_size, nrounds)
 
         res += ' {{ nsimd::packx{}<u{}> out;'.format(nwords, word_size)
 
-- 
2.43.0


From 0cc4d832fbe25f3f518f6959091a06fb4b59805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 26/35] fix: device_malloc and device_calloc with an
 overflowing number of elements

---
 include/nsimd/modules/memory_management.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 57ede59..47e2e3f 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -39,6 +39,9 @@ namespace nsimd {
 
 template <typename T> T *device_malloc(size_t sz) {
   void *ret;
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   if (cudaMalloc(&ret, sz * sizeof(T)) != cudaSuccess) {
     return NULL;
   }
@@ -47,6 +50,9 @@ template <typename T> T *device_malloc(size_t sz) {
 
 template <typename T> T *device_calloc(size_t sz) {
   void *ret;
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   if (cudaMalloc(&ret, sz * sizeof(T)) != cudaSuccess) {
     return NULL;
   }
@@ -92,6 +98,9 @@ void copy_to_host(T *host_ptr, T *device_ptr, size_t sz) {
 
 template <typename T> T *device_malloc(size_t sz) {
   void *ret;
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   if (hipMalloc(&ret, sz * sizeof(T)) != hipSuccess) {
     return NULL;
   }
@@ -100,6 +109,9 @@ template <typename T> T *device_malloc(size_t sz) {
 
 template <typename T> T *device_calloc(size_t sz) {
   void *ret;
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   if (hipMalloc(&ret, sz * sizeof(T)) != hipSuccess) {
     return NULL;
   }
@@ -205,11 +217,14 @@ void copy_to_host(T *const host_ptr, const T *const device_ptr, size_t sz) {
 #else
 
 template <typename T> T *device_malloc(size_t sz) {
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   return (T *)malloc(sz * sizeof(T));
 }
 
 template <typename T> T *device_calloc(size_t sz) {
-  return (T *)calloc(sz * sizeof(T), 1);
+  return (T *)calloc(sz, sizeof(T));
 }
 
 template <typename T> void device_free(T *ptr) { free((void *)ptr); }
-- 
2.43.0


From b6bc66850184f2eb5d1d29e6c5498f8d17461fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 27/35] fix: GPU pairs: size of the host side in bytes, release
 of the device side

---
 include/nsimd/modules/memory_management.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 47e2e3f..3f45a05 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -266,7 +266,7 @@ template <typename T> paired_pointers_t<T> pair_malloc(size_t sz) {
     ret.host_ptr = NULL;
     return ret;
   }
-  ret.host_ptr = (T *)malloc(sz);
+  ret.host_ptr = (T *)malloc(sz * sizeof(T));
   if (ret.host_ptr == NULL) {
     device_free(ret.device_ptr);
     ret.device_ptr = NULL;
@@ -299,7 +299,7 @@ template <typename T> paired_pointers_t<T> pair_calloc(size_t sz) {
     ret.host_ptr = NULL;
     return ret;
   }
-  ret.host_ptr = calloc(sz, 1);
+  ret.host_ptr = (T *)calloc(sz, sizeof(T));
   if (ret.host_ptr == NULL) {
     device_free(ret.device_ptr);
     ret.device_ptr = NULL;
@@ -325,7 +325,7 @@ template <typename T> paired_pointers_t<T> pair_calloc_or_exit(size_t sz) {
 
 template <typename T> void pair_free(paired_pointers_t<T> p) {
 #if defined(NSIMD_CUDA) || defined(NSIMD_ROCM) || defined(NSIMD_ONEAPI)
-  device_free(p.device_free);
+  device_free(p.device_ptr);
   free((void *)p.host_ptr);
 #else
   free((void *)p.host_ptr);
-- 
2.43.0


From 8bde0f14a72b669b6bcac193624a4a8fccdb063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 28/35] fix: GPU fms/fnma/fnms signs, half min/max/ne, and
 signed saturated subtraction

---
 egg/cuda.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/egg/cuda.py b/egg/cuda.py
index eb216d3..9bd562f 100644
--- a/egg/cuda.py
+++ b/egg/cuda.py
@@ -35,17 +35,20 @@ def get_impl_f16(operator, totyp, typ):
     elif operator.name in ['rsqrt8', 'rsqrt11']:
         arch53_code = 'return hrsqrt({in0});'.format(**fmtspec)
     elif operator.name in ['fma', 'fms', 'fnma', 'fnms']:
-        neg = '-' if operator.name in ['fnma, fnms'] else ''
-        op = '-' if operator.name in ['fnms, fms'] else ''
+        neg = '-' if operator.name in ['fnma', 'fnms'] else ''
+        op = '-' if operator.name in ['fnms', 'fms'] else ''
         arch53_code = 'return __hfma({neg}{in0}, {in1}, {op}{in2});'. \
                       format(neg=neg, op=op, **fmtspec)
     elif operator.name in ['min', 'max']:
         intr = '__hlt' if operator.name == 'min' else '__hgt'
-        arch53_code = '''if ({intr}) {{
+        arch53_code = '''if ({intr}({in0}, {in1})) {{
                            return {in0};
                          }} else {{
                            return {in1};
                          }}'''.format(intr=intr, **fmtspec)
+    elif operator.name == 'ne':
+        # __hne returns false on NaNs
+        arch53_code = 'return __hneu({in0}, {in1});'.format(**fmtspec)
     elif operator.name in ['adds', 'subs']:
         arch53_code = 'return __h{op}({in0}, {in1});'. \
                       format(op=operator.name[:-1], **fmtspec)
@@ -297,12 +300,13 @@ def get_impl(operator, totyp, typ):
         elif typ in common.utypes:
             return scalar.get_impl(operator, totyp, typ)
         else:
-            return 'return nsimd::gpu_adds({in0}, ({typ})(-{in1}));'. \
+            # -{in1} is not representable when {in1} is the smallest integer
+            return 'return ({typ})~nsimd::gpu_adds(({typ})~{in0}, {in1});'. \
                    format(**fmtspec)
     # fma's
     if operator.name in ['fma', 'fms', 'fnma', 'fnms']:
-        neg = '-' if operator.name in ['fnma, fnms'] else ''
-        op = '-' if operator.name in ['fnms, fms'] else ''
+        neg = '-' if operator.name in ['fnma', 'fnms'] else ''
+        op = '-' if operator.name in ['fnms', 'fms'] else ''
         if typ in common.ftypes:
             return 'return fma{f}({neg}{in0}, {in1}, {op}{in2});'. \
                    format(f='f' if typ == 'f32' else '', neg=neg, op=op,
-- 
2.43.0


From 0ccd19d9ec863384a3cfa3d34d3a41a252e99b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:24 +0000
Subject: [PATCH 29/35] fix: TET1D: accept f16 scalars in infix expressions on
 f16 arrays

---
 include/nsimd/modules/tet1d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 71c2340..f88de17 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -274,6 +274,7 @@ template <> struct literal_to<f16> {
   template <typename S> static f16 impl(S a) {
     return nsimd_f32_to_f16(f32(a));
   }
+  static f16 impl(f16 a) { return a; }
 };
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 054eeb22a0b89573ac78eed6bc87145346d5c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 30/35] fix: sleef argument reduction reads past its tables for
 infinities and NaNs

---
 src/rempitab.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rempitab.c b/src/rempitab.c
index 200d8ea..1b0f6c0 100644
--- a/src/rempitab.c
+++ b/src/rempitab.c
@@ -981,6 +981,8 @@ FUNCATR const double Sleef_rempitabdp[] = {
   2.1353977370878701046e-273, -1.2215123283371736879e-289, 6.7342163555358599277e-306, -5.681754927174335258e-322,
   2.1353977370878701046e-273, -1.2215123283371736879e-289, 6.7342163555358599277e-306, -5.681754927174335258e-322,
   2.8687869620228451614e-274, -1.9537812801257956865e-290, 1.0380272777574237546e-306, 6.4228533959362050743e-323,
+  // exponent of infinities and NaNs
+  0, 0, 0, 0,
 };
 
 NOEXPORT ALIGNED(64) const float Sleef_rempitabsp[] = {
@@ -1087,4 +1089,6 @@ NOEXPORT ALIGNED(64) const float Sleef_rempitabsp[] = {
   1.183823005e-12, 1.161414894e-20, 1.29131908e-27, 1.715766248e-34,
   1.183823005e-12, 1.161414894e-20, 1.29131908e-27, 1.715766248e-34,
   2.743283031e-13, 1.161414894e-20, 1.29131908e-27, 1.715766248e-34,
+  // exponent of infinities and NaNs
+  0, 0, 0, 0,
 };
-- 
2.43.0


From 02feaffd7132753f6207c08ce646681b8be27dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 31/35] fix: C++20: concept of SIMD extensions missing for SSE
 4.2, packl, loadl and storel rejected logicals

---
 include/nsimd/cxx_adv_api.hpp | 8 ++++----
 include/nsimd/nsimd.h         | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index ab6eb86..aad1e2e 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -205,7 +205,7 @@ NSIMD_STRUCT packl {
   packl() {}
 
   // Ctor that splats
-  template <NSIMD_CONCEPT_VALUE_TYPE S> packl(S const &s) : cdr(s) {
+  template <NSIMD_CONCEPT_VALUE_TYPE_OR_BOOL S> packl(S const &s) : cdr(s) {
     car = set1l(int(s), T(), SimdExt());
   }
 
@@ -890,7 +890,7 @@ template <> struct store_helper<aligned> {
     mask_storea(a0, a1, a2);
   }
 
-  template <NSIMD_CONCEPT_PACK P> static void storel(NSIMD_T *a0, P const &a1) {
+  template <NSIMD_CONCEPT_PACKL P> static void storel(NSIMD_T *a0, P const &a1) {
     storela(a0, a1);
   }
 
@@ -924,7 +924,7 @@ template <> struct store_helper<unaligned> {
     mask_storeu(a0, a1, a2);
   }
 
-  template <NSIMD_CONCEPT_PACK P> static void storel(NSIMD_T *a0, P const &a1) {
+  template <NSIMD_CONCEPT_PACKL P> static void storel(NSIMD_T *a0, P const &a1) {
     storelu(a0, a1);
   }
 
@@ -969,7 +969,7 @@ Pack masko_load(Packl const &pl, const typename Pack::value_type *ptr,
   return detail::load_helper<Pack, Alignment>::masko_load(pl, ptr, p);
 }
 
-template <NSIMD_CONCEPT_PACK SimdVector, NSIMD_CONCEPT_ALIGNMENT Alignment>
+template <NSIMD_CONCEPT_PACKL SimdVector, NSIMD_CONCEPT_ALIGNMENT Alignment>
 SimdVector loadl(const typename SimdVector::value_type *ptr) {
   return detail::load_helper<SimdVector, Alignment>::loadl(ptr);
 }
diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 9bd4b54..78e1777 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -414,7 +414,7 @@ namespace nsimd {
       struct cpu {};
       struct sse2 {};
       struct sse42 {};
-      #if nsIMD_CXX >= 2020
+      #if NSIMD_CXX >= 2020
         template <typename T>
         concept simd_ext_c = std::is_same_v<T, nsimd::cpu> ||
                              std::is_same_v<T, nsimd::sse2> ||
-- 
2.43.0


From fb3628f4e0b840d3b99ec0d08526067cd64c5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 32/35] fix: fixed point: product of formats without fractional
 bits shifted by the width of the type

---
 include/nsimd/modules/fixed_point/function/mul.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/mul.hpp b/include/nsimd/modules/fixed_point/function/mul.hpp
index 29ffb02..484c8e6 100644
--- a/include/nsimd/modules/fixed_point/function/mul.hpp
+++ b/include/nsimd/modules/fixed_point/function/mul.hpp
@@ -35,9 +35,8 @@ NSIMD_INLINE fp_t<_lf, _rt> mul(const fp_t<_lf, _rt> &a,
   typedef typename fp_t<_lf, _rt>::value_type raw_t;
   typedef typename fp_t<_lf, _rt>::positive_type pos_t;
 
-  const size_t storage_size = 8 * sizeof(raw_t);
-  static const raw_t sign_val =
-      (raw_t)((pos_t)-1 << (storage_size - _rt));
+  // The _rt most significant bits (none for formats without fractional part)
+  static const raw_t sign_val = (raw_t)(~((pos_t)-1 >> _rt));
 
   fp_t<_lf, _rt> res;
 
-- 
2.43.0


From f063b661b97ad5e69a9695a3d373d100abd91477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:12 +0000
Subject: [PATCH 33/35] fix: generator: list or skip existing fixed point docs
 and random files

'hatch.py --list-files' wrote the Markdown pages of the fixed_point module
and the header and tests of the random module, and without --force both were
overwritten: they did not ask can_create_filename as everything else does.
---
 egg/modules/fixed_point/gen_doc.py | 6 ++++++
 egg/modules/random/hatch.py        | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/egg/modules/fixed_point/gen_doc.py b/egg/modules/fixed_point/gen_doc.py
index a7251a3..f0eb656 100644
--- a/egg/modules/fixed_point/gen_doc.py
+++ b/egg/modules/fixed_point/gen_doc.py
@@ -37,6 +37,8 @@ import operators
 
 def gen_overview(opts):
     filename = common.get_markdown_file(opts, 'overview', 'fixed_point')
+    if not common.can_create_filename(opts, filename):
+        return
     with common.open_utf8(opts, filename) as fout:
         fout.write('''
 # NSIMD fixed point module
@@ -200,6 +202,8 @@ def gen_api(opts, op_list):
                 api[c].append(operator)
 
     filename = common.get_markdown_file(opts, 'api', 'fixed_point')
+    if not common.can_create_filename(opts, filename):
+        return
     with common.open_utf8(opts, filename) as fout:
         fout.write('''# NSIMD fixed point API\n''')
         for c, ops in api.items():
@@ -218,6 +222,8 @@ def gen_doc(opts, op_list):
         if op.name not in op_list:
             continue
         filename = common.get_markdown_api_file(opts, op.name, 'fixed_point')
+        if not common.can_create_filename(opts, filename):
+            continue
         with common.open_utf8(opts, filename) as fout:
             fout.write(api_template.format(full_name=op.full_name,
                                            desc=op.desc, decl=gen_decl(op)))
diff --git a/egg/modules/random/hatch.py b/egg/modules/random/hatch.py
index dfa02cf..5ec180f 100644
--- a/egg/modules/random/hatch.py
+++ b/egg/modules/random/hatch.py
@@ -593,6 +593,8 @@ def gen_functions(opts):
     dirname = os.path.join(opts.include_dir, 'modules', 'random')
     common.mkdir_p(dirname)
     filename = os.path.join(dirname, 'functions.hpp')
+    if not common.can_create_filename(opts, filename):
+        return
     with common.open_utf8(opts, filename) as out:
         out.write(
         '''#ifndef NSIMD_MODULES_RANDOM_FUNCTIONS_HPP
@@ -656,6 +658,8 @@ def gen_tests(opts):
                     filename = os.path.join(dirname, '{}.cpp'. \
                                format(func.gen_function_name(nwords, word_size,
                                                              nrounds)))
+                    if not common.can_create_filename(opts, filename):
+                        continue
                     with common.open_utf8(opts, filename) as out:
                         out.write(func.gen_tests(opts, nrounds, word_size,
                                   nwords))
-- 
2.43.0


From 7370feca6bfc8b3a7b8f0f3a8c7188fd8ecd5f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:12 +0000
Subject: [PATCH 34/35] fix: GPU kernels: index arrays of more than 2^31
 elements

The kernels of TET1D and SPMD (CUDA) and nsimd_fill_dev_mem_func computed the
index of an element with 32-bit integers although lengths are nsimd_nat: such
arrays were written outside of their bounds or only partially.
---
 include/nsimd/modules/memory_management.hpp |  9 +++++----
 include/nsimd/modules/spmd.hpp              | 21 +++++++++++++--------
 include/nsimd/modules/tet1d.hpp             | 14 +++++++++-----
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 3f45a05..01126a6 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -79,8 +79,8 @@ void copy_to_host(T *host_ptr, T *device_ptr, size_t sz) {
 
 #define nsimd_fill_dev_mem_func(func_name, expr)                              \
   template <typename T>                                                       \
-  __global__ void kernel_##func_name##_(T *ptr, int n) {                      \
-    int i = threadIdx.x + blockIdx.x * blockDim.x;                            \
+  __global__ void kernel_##func_name##_(T *ptr, size_t n) {                   \
+    size_t i = (size_t)threadIdx.x + (size_t)blockIdx.x * (size_t)blockDim.x; \
     if (i < n) {                                                              \
       ptr[i] = (T)(expr);                                                     \
     }                                                                         \
@@ -88,7 +88,7 @@ void copy_to_host(T *host_ptr, T *device_ptr, size_t sz) {
                                                                               \
   template <typename T> void func_name(T *ptr, size_t sz) {                   \
     kernel_##func_name##_<<<(unsigned int)((sz + 127) / 128), 128>>>(         \
-        ptr, int(sz));                                                        \
+        ptr, sz);                                                             \
   }
 
 // ----------------------------------------------------------------------------
@@ -138,7 +138,8 @@ template <typename T> void copy_to_host(T *host_ptr, T *device_ptr, size_t sz) {
 #define nsimd_fill_dev_mem_func(func_name, expr)                              \
   template <typename T>                                                       \
   __global__ void kernel_##func_name##_(T *ptr, size_t n) {                   \
-    size_t i = hipThreadIdx_x + hipBlockIdx_x * hipBlockDim_x;                \
+    size_t i = (size_t)hipThreadIdx_x +                                       \
+               (size_t)hipBlockIdx_x * (size_t)hipBlockDim_x;                 \
     if (i < n) {                                                              \
       ptr[i] = (T)(expr);                                                     \
     }                                                                         \
diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 2ddf341..88f7682 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -62,15 +62,18 @@ namespace spmd {
 
 // 1d kernel definition
 #define spmd_kernel_1d(name, ...)                                             \
-  template <int spmd_ScalarBits_> __global__ void name(__VA_ARGS__, int n) {  \
-    int spmd_i_ = threadIdx.x + blockIdx.x * blockDim.x;                      \
+  template <int spmd_ScalarBits_>                                             \
+  __global__ void name(__VA_ARGS__, size_t n) {                               \
+    size_t spmd_i_ =                                                          \
+        (size_t)threadIdx.x + (size_t)blockIdx.x * (size_t)blockDim.x;        \
     if (spmd_i_ < n) {
 
 // templated kernel definition
 #define spmd_tmpl_kernel_1d(name, template_argument, ...)                     \
   template <typename template_argument, int spmd_ScalarBits_>                 \
-  __global__ void name(__VA_ARGS__, int n) {                                  \
-    int spmd_i_ = threadIdx.x + blockIdx.x * blockDim.x;                      \
+  __global__ void name(__VA_ARGS__, size_t n) {                               \
+    size_t spmd_i_ =                                                          \
+        (size_t)threadIdx.x + (size_t)blockIdx.x * (size_t)blockDim.x;        \
     if (spmd_i_ < n) {
 
 #elif defined(NSIMD_ROCM)
@@ -79,14 +82,16 @@ namespace spmd {
 #define spmd_kernel_1d(name, ...)                                             \
   template <int spmd_ScalarBits_>                                             \
   __global__ void name(__VA_ARGS__, size_t n) {                               \
-    size_t spmd_i_ = hipThreadIdx_x + hipBlockIdx_x * hipBlockDim_x;          \
+    size_t spmd_i_ = (size_t)hipThreadIdx_x +                                 \
+                     (size_t)hipBlockIdx_x * (size_t)hipBlockDim_x;           \
     if (spmd_i_ < n) {
 
 // templated kernel definition
 #define spmd_tmpl_kernel_1d(name, template_argument, ...)                     \
   template <typename template_argument, int spmd_ScalarBits_>                 \
   __global__ void name(__VA_ARGS__, size_t n) {                               \
-    size_t spmd_i_ = hipThreadIdx_x + hipBlockIdx_x * hipBlockDim_x;          \
+    size_t spmd_i_ = (size_t)hipThreadIdx_x +                                 \
+                     (size_t)hipBlockIdx_x * (size_t)hipBlockDim_x;           \
     if (spmd_i_ < n) {
 
 #else
@@ -158,7 +163,7 @@ namespace spmd {
                               ...)                                            \
   name<spmd_scalar_bits_>                                                     \
       <<<(unsigned int)nsimd_kernel_param(n, threads_per_block),              \
-         (unsigned int)(threads_per_block)>>>(__VA_ARGS__, (int)n)
+         (unsigned int)(threads_per_block)>>>(__VA_ARGS__, (size_t)n)
 
 // launch 1d templated kernel CUDA
 #define spmd_launch_tmpl_kernel_1d(name, template_argument,                   \
@@ -166,7 +171,7 @@ namespace spmd {
                                    ...)                                       \
   name<template_argument, spmd_scalar_bits_>                                  \
       <<<(unsigned int)nsimd_kernel_param(n, threads_per_block),              \
-         (unsigned int)(threads_per_block)>>>(__VA_ARGS__, (int)n)
+         (unsigned int)(threads_per_block)>>>(__VA_ARGS__, (size_t)n)
 
 #elif defined(NSIMD_ROCM)
 
diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index f88de17..f508be1 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -66,7 +66,8 @@ inline void gpuCheck(cudaError_t code, const char *file, int line) {
 template <typename T, typename Expr>
 __global__ void gpu_kernel_component_wise(T *dst, Expr const expr,
                                           nsimd::nat n) {
-  int i = threadIdx.x + blockIdx.x * blockDim.x;
+  nsimd::nat i = (nsimd::nat)threadIdx.x +
+                 (nsimd::nat)blockIdx.x * (nsimd::nat)blockDim.x;
   if (i < n) {
     dst[i] = expr.gpu_get(i);
   }
@@ -77,7 +78,8 @@ template <typename T, typename Mask, typename Expr>
 __global__ void gpu_kernel_component_wise_mask(T *dst, Mask const mask,
                                                Expr const expr,
                                                nsimd::nat n) {
-  int i = threadIdx.x + blockIdx.x * blockDim.x;
+  nsimd::nat i = (nsimd::nat)threadIdx.x +
+                 (nsimd::nat)blockIdx.x * (nsimd::nat)blockDim.x;
   if (i < n && mask.gpu_get(i)) {
     dst[i] = expr.gpu_get(i);
   }
@@ -89,7 +91,8 @@ __global__ void gpu_kernel_component_wise_mask(T *dst, Mask const mask,
 template <typename T, typename Expr>
 __global__ void gpu_kernel_component_wise(T *dst, Expr const expr,
                                           nsimd::nat n) {
-  int i = int(hipThreadIdx_x + hipBlockIdx_x * hipBlockDim_x);
+  nsimd::nat i = (nsimd::nat)hipThreadIdx_x +
+                 (nsimd::nat)hipBlockIdx_x * (nsimd::nat)hipBlockDim_x;
   if (i < n) {
     dst[i] = expr.gpu_get(i);
   }
@@ -100,7 +103,8 @@ template <typename T, typename Mask, typename Expr>
 __global__ void gpu_kernel_component_wise_mask(T *dst, Mask const mask,
                                                Expr const expr,
                                                nsimd::nat n) {
-  int i = int(hipThreadIdx_x + hipBlockIdx_x * hipBlockDim_x);
+  nsimd::nat i = (nsimd::nat)hipThreadIdx_x +
+                 (nsimd::nat)hipBlockIdx_x * (nsimd::nat)hipBlockDim_x;
   if (i < n && mask.gpu_get(i)) {
     dst[i] = expr.gpu_get(i);
   }
@@ -112,7 +116,7 @@ __global__ void gpu_kernel_component_wise_mask(T *dst, Mask const mask,
 template <typename T, typename Expr>
 void oneapi_kernel_component_wise(T *dst, Expr const expr,
                                   nsimd::nat n, sycl::nd_item<1> item) {
-  const int i = static_cast<int>(item.get_global_id().get(0));
+  const nsimd::nat i = static_cast<nsimd::nat>(item.get_global_id().get(0));
   if (i < n) {
     dst[i] = expr.gpu_get(i);
   }
-- 
2.43.0


From 85418963d9e7b00af5044ccfa29a3e211b9e59e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:12 +0000
Subject: [PATCH 35/35] fix: fixed_point: floor, ceil, is_int and sqrt

floor, ceil and is_int masked the wrong bits for formats with fractional
bits; sqrt divided by zero for 0 and did not converge for large values.
---
 .../nsimd/modules/fixed_point/function/ceil.hpp |  3 +--
 .../modules/fixed_point/function/floor.hpp      |  5 +++--
 .../nsimd/modules/fixed_point/function/sqrt.hpp | 17 ++++++++++++-----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/ceil.hpp b/include/nsimd/modules/fixed_point/function/ceil.hpp
index 540bd77..0494329 100644
--- a/include/nsimd/modules/fixed_point/function/ceil.hpp
+++ b/include/nsimd/modules/fixed_point/function/ceil.hpp
@@ -32,9 +32,8 @@ namespace nsimd {
 namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> ceil(const fp_t<_lf, _rt> &a) {
-  const int shift_size = _lf;
   fp_t<_lf, _rt> res = floor(a);
-  if (0 == ((a._raw << (shift_size)) >> shift_size)) {
+  if (res._raw == a._raw) {
     return res;
   } else {
     return (res + constants::one<_lf, _rt>());
diff --git a/include/nsimd/modules/fixed_point/function/floor.hpp b/include/nsimd/modules/fixed_point/function/floor.hpp
index 6966afc..32601dd 100644
--- a/include/nsimd/modules/fixed_point/function/floor.hpp
+++ b/include/nsimd/modules/fixed_point/function/floor.hpp
@@ -31,9 +31,10 @@ namespace nsimd {
 namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> floor(const fp_t<_lf, _rt> &a) {
-  const int shift_size = 8 * sizeof(a._raw) - _lf;
+  typedef typename fp_t<_lf, _rt>::value_type raw_t;
+  const raw_t frac = (raw_t)(((raw_t)1 << _rt) - 1);
   fp_t<_lf, _rt> res;
-  res._raw = (a._raw >> (shift_size)) << shift_size;
+  res._raw = (raw_t)(a._raw & ~frac);
   return res;
 }
 
diff --git a/include/nsimd/modules/fixed_point/function/sqrt.hpp b/include/nsimd/modules/fixed_point/function/sqrt.hpp
index 37503aa..9c39017 100644
--- a/include/nsimd/modules/fixed_point/function/sqrt.hpp
+++ b/include/nsimd/modules/fixed_point/function/sqrt.hpp
@@ -25,6 +25,7 @@ SOFTWARE.
 #ifndef NSIMD_MODULES_FIXED_POINT_FUNCTION_SQRT_HPP
 #define NSIMD_MODULES_FIXED_POINT_FUNCTION_SQRT_HPP
 
+#include "nsimd/modules/fixed_point/constants.hpp"
 #include "nsimd/modules/fixed_point/fixed.hpp"
 
 namespace nsimd {
@@ -32,16 +33,22 @@ namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> sqrt(const fp_t<_lf, _rt> &a) {
   fp_t<_lf, _rt> x0, x1;
-  x0 = a;
-  // For the few cases tested, 10 iterations is more than enough to converge
-  for (int i = 0; i < 10; ++i) {
+  if (a._raw <= 0) {
+    return constants::zero<_lf, _rt>();
+  }
+  // Starting above the root the iterates decrease until they reach it
+  x0 = constants::one<_lf, _rt>();
+  if (a._raw > x0._raw) {
+    x0 = a;
+  }
+  for (;;) {
     x1 = (x0 + (a / x0)) / 2;
-    if (x0._raw == 0 || (x0._raw - x1._raw) == 0)
+    if (x1._raw >= x0._raw)
       break;
     x0 = x1;
   }
 
-  return x1;
+  return x0;
 }
 
 } // namespace fixed_point
-- 
2.43.0

