From e881a2c8068844ff6bef04b9919c973cd666603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:10 +0000
Subject: [PATCH 1/9] fix: RDRAND keeps reading past its buffer after a failed
 refill

---
 randomgen/rdrand.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index f27f5a7..14bf480 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -26,21 +26,21 @@ increase the number of retries to slow down the generation on contested CPUs.
 cdef uint64_t rdrand_uint64(void* st) noexcept nogil:
     cdef PyObject *err
     cdef rdrand_state *state
-    cdef int status
+    cdef int previous, status
     cdef uint64_t val
     state = <rdrand_state*>st
-    status = 1
-    if state.status == 1 and state.buffer_loc < BUFFER_SIZE:
+    if state.buffer_loc < BUFFER_SIZE:
         val = state.buffer[state.buffer_loc]
         state.buffer_loc += 1
         return val
-    elif state.status == 1:
-        # Only refill if good status
-        # This function will
-        status = rdrand_fill_buffer(state)
+    # Always refill an exhausted buffer, even after a failure, so that
+    # buffer_loc cannot pass the end of the buffer. A failed state.status is
+    # never cleared by the refill.
+    previous = state.status
+    status = rdrand_fill_buffer(state)
     val = state.buffer[state.buffer_loc]
     state.buffer_loc += 1
-    if status == 0:
+    if previous == 1 and status == 0:
         # Only raise on a status change
         with gil:
             err = PyErr_Occurred()
-- 
2.43.0


From 1858faab0d929217634f2fa6fb0c73031cb609fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 2/9] fix: Squares state setter does not restore the buffered
 32-bit value

---
 randomgen/squares.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 1f0ef88..9c271b8 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -541,6 +541,8 @@ cdef class Squares(BitGenerator):
         state = value["state"]
         self.rng_state.key = state["key"]
         self.rng_state.counter = state["counter"]
+        self.rng_state.has_uint32 = value["has_uint32"]
+        self.rng_state.uinteger = value["uinteger"]
         variant = value["variant"]
         if variant not in (64, 32):
             raise ValueError("variant must be either 64 or 32.")
-- 
2.43.0


From 0710cf0f0c3bdeab5881e4614341db7d5cc83b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 3/9] fix: Squares key generation reads one word past its bit
 well

---
 randomgen/squares.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 9c271b8..5129aae 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -88,7 +88,7 @@ cdef class _SequenceSampler:
         self.bit_well = <uint64_t>self.random_well[self.index]
         self.bit_well_loc = 0
         self.index += 1
-        if self.index > self.randoms_drawm:
+        if self.index >= self.randoms_drawm:
             self.randoms_drawm *= 2
             self.random_well = self.seed_seq.generate_state(
                 self.randoms_drawm, dtype=np.uint64
-- 
2.43.0


From f269c33416f1a008d1bae933be2ed7e563adf2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 4/9] fix: LCG128Mix state setter leaves the previous output
 function and multiplier in the instance

---
 randomgen/pcg64.pyx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index abed244..33c7bf6 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -848,11 +848,16 @@ cdef class LCG128Mix(BitGenerator):
                             )
         self.rng_state.has_uint32 = has_uint32
         self.rng_state.uinteger = uinteger
-        self.rng_state.pcg_state.dxsm_multiplier = value["state"]["dxsm_multiplier"]
-        self.rng_state.pcg_state.post = value["state"]["post"]
+        self.multiplier = multiplier
+        self.dxsm_multiplier = value["state"]["dxsm_multiplier"]
+        self.rng_state.pcg_state.dxsm_multiplier = self.dxsm_multiplier
+        self.post = bool(value["state"]["post"])
+        self.rng_state.pcg_state.post = <bint>self.post
         output_func = value["state"]["output_func"]
         if isinstance(output_func, str):
-            self.rng_state.pcg_state.output_idx = self._output_lookup[output_func]
+            self._cfunc = None
+            self.output_function = self._output_lookup[output_func]
+            self.rng_state.pcg_state.output_idx = self.output_function
         elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
             import ctypes
 
-- 
2.43.0


From b648ea8bcb3203d9588843eef5a23fa276dba6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 5/9] fix: complex_normal draws a scalar without holding the
 lock

---
 randomgen/generator.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 9f46584..d400fdd 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -648,8 +648,9 @@ cdef class ExtendedGenerator:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
             if size is None:
-                f_real = random_standard_normal(&self._bitgen)
-                f_imag = random_standard_normal(&self._bitgen)
+                with self.lock:
+                    f_real = random_standard_normal(&self._bitgen)
+                    f_imag = random_standard_normal(&self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
-- 
2.43.0


From d8ceda1a352202c0fa5c15da2b7e1b004dc522e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 6/9] fix: reseeding HC128 keeps handing out the block buffered
 before

---
 randomgen/src/hc-128/hc-128.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/src/hc-128/hc-128.c b/randomgen/src/hc-128/hc-128.c
index 88b2ad4..707cc93 100644
--- a/randomgen/src/hc-128/hc-128.c
+++ b/randomgen/src/hc-128/hc-128.c
@@ -46,6 +46,7 @@ void hc128_init(hc128_state_t *state, const uint8_t *key, const uint8_t *iv)
         q[i] = round_expression_qp(q, p, i);
 
     state->hc_idx = 0;
+    state->buffer_idx = 0;
 }
 
 void hc128_seed(hc128_state_t *state, uint32_t *seed)
-- 
2.43.0


From fcd1c9eb5f3f358fc460eed9967f2fb8fb523fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 7/9] fix: reseeding Xorshift1024 keeps the old position in its
 state

---
 randomgen/xorshift1024.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index ffcb768..1b71e70 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -135,6 +135,7 @@ cdef class Xorshift1024(BitGenerator):
         state = self._get_seed_seq().generate_state(16, np.uint64)
         for i in range(16):
             self.rng_state.s[i] = state[i]
+        self.rng_state.p = 0
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From 0e24644a4feb34e6a2c989da35314b230cc9a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:52 +0000
Subject: [PATCH 8/9] fix: ExtendedGenerator draws through its bit generator's
 current functions

ExtendedGenerator kept a copy of the table of draw functions made when it was
constructed. Assigning a state saved by another variant (PCG64 dxsm, Squares 32,
JSF 32, Romu trio, ...) changes the functions of the bit generator but not the
copy, so unpickled and copied generators continued with a different stream.
---
 randomgen/generator.pyx | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index d400fdd..e77a166 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -159,8 +159,8 @@ cdef class ExtendedGenerator:
     """
 
     cdef public object _bit_generator
-    cdef bitgen_t _bitgen
-    cdef object lock, _generator
+    cdef bitgen_t *_bitgen
+    cdef object lock
 
     def __init__(self, bit_generator=None):
         if bit_generator is None:
@@ -172,10 +172,8 @@ cdef class ExtendedGenerator:
         if not PyCapsule_IsValid(capsule, name):
             raise ValueError("Invalid bit generator. The bit generator must "
                              "be instantized.")
-        self._bitgen = (<bitgen_t *> PyCapsule_GetPointer(capsule, name))[0]
+        self._bitgen = <bitgen_t *> PyCapsule_GetPointer(capsule, name)
         self.lock = bit_generator.lock
-        from numpy.random import Generator
-        self._generator = Generator(bit_generator)
 
     def __repr__(self):
         out = object.__repr__(self)
@@ -347,9 +345,9 @@ cdef class ExtendedGenerator:
 
         key = np.dtype(dtype).name
         if key == "float64":
-            return double_fill(&random_double_fill, &self._bitgen, size, self.lock, out)
+            return double_fill(&random_double_fill, self._bitgen, size, self.lock, out)
         elif key == "float32":
-            return float_fill(&random_float, &self._bitgen, size, self.lock, out)
+            return float_fill(&random_float, self._bitgen, size, self.lock, out)
         elif key == np.dtype("longdouble").name:
             if np.longdouble(1).nbytes != random_long_double_size():
                 raise RuntimeError(
@@ -366,7 +364,7 @@ cdef class ExtendedGenerator:
             out_data = <long double*>np.PyArray_DATA(out_array)
             out_size = out_array.size
             with self.lock, nogil:
-                random_long_double_fill(&self._bitgen, out_size, out_data)
+                random_long_double_fill(self._bitgen, out_size, out_data)
             if out is None and size is None:
                 return out_array[0]
             return out_array
@@ -543,7 +541,9 @@ cdef class ExtendedGenerator:
                 final_size.append(max(s, os))
             out_shape = tuple(final_size)
 
-        out = self._generator.standard_normal(out_shape + (1, n,))
+        # numpy's Generator copies the function pointers when it is created
+        generator = np.random.Generator(self._bit_generator)
+        out = generator.standard_normal(out_shape + (1, n,))
         prod = np.matmul(out, _factors)
         final = mean + np.squeeze(prod, axis=prod.ndim - 2)
         if drop_dims and final.shape[0] == 1:
@@ -649,8 +649,8 @@ cdef class ExtendedGenerator:
 
             if size is None:
                 with self.lock:
-                    f_real = random_standard_normal(&self._bitgen)
-                    f_imag = random_standard_normal(&self._bitgen)
+                    f_real = random_standard_normal(self._bitgen)
+                    f_imag = random_standard_normal(self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
@@ -663,8 +663,8 @@ cdef class ExtendedGenerator:
             j = 0
             with self.lock, nogil:
                 for i in range(n):
-                    f_real = random_standard_normal(&self._bitgen)
-                    f_imag = random_standard_normal(&self._bitgen)
+                    f_real = random_standard_normal(self._bitgen)
+                    f_imag = random_standard_normal(self._bitgen)
                     compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                     fvar_i, f_rho)
                     randoms_data[j] = f_real
@@ -704,7 +704,7 @@ cdef class ExtendedGenerator:
         with self.lock, nogil:
             n2 = 2 * n  # Avoid compiler noise for cast
             for i in range(n2):
-                randoms_data[i] = random_standard_normal(&self._bitgen)
+                randoms_data[i] = random_standard_normal(self._bitgen)
         with nogil:
             j = 0
             for i in range(n):
@@ -723,7 +723,7 @@ cdef class ExtendedGenerator:
     cdef object random_wishart_small_df(
             self, int64_t df, np.npy_intp dim, np.npy_intp num, object n
     ):
-        double_fill(&random_standard_normal_fill, &self._bitgen, None, self.lock, n)
+        double_fill(&random_standard_normal_fill, self._bitgen, None, self.lock, n)
         return np.matmul(np.transpose(n, (0, 2, 1)), n)
 
     def standard_wishart(self, int64_t df, np.npy_intp dim, size=None, rescale=True):
@@ -799,7 +799,7 @@ cdef class ExtendedGenerator:
             n = <np.ndarray> np.empty((dim, dim))
             n_data = <double *> np.PyArray_DATA(n)
             with self.lock, nogil:
-                random_wishart_large_df(&self._bitgen, df, dim, num, out_data, n_data)
+                random_wishart_large_df(self._bitgen, df, dim, num, out_data, n_data)
         if size is None or size == ():
             out.shape = (dim, dim)
         else:
@@ -975,7 +975,7 @@ and the trailing dimensions must match exactly so that
                 temp = self.random_wishart_small_df(df_i, dim, block_size, small_work)
             else:
                 with self.lock, nogil:
-                    random_wishart_large_df(&self._bitgen,
+                    random_wishart_large_df(self._bitgen,
                                             df_i,
                                             <np.npy_intp>dim,
                                             <np.npy_intp>block_size,
-- 
2.43.0


From ccd7d2d345d2ba7fd800a51b6d72d2557767a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:41 +0000
Subject: [PATCH 9/9] fix: ctypes and cffi interfaces follow an assigned state

The interfaces are cached. After a state saved by another variant was assigned,
the cached interface still held the functions of the previous variant, which
read the new state as if it were the old one.
---
 randomgen/jsf.pyx          | 2 ++
 randomgen/pcg64.pyx        | 2 ++
 randomgen/philox.pyx       | 2 ++
 randomgen/romu.pyx         | 2 ++
 randomgen/squares.pyx      | 2 ++
 randomgen/threefry.pyx     | 2 ++
 randomgen/tyche.pyx        | 2 ++
 randomgen/xoroshiro128.pyx | 2 ++
 8 files changed, 16 insertions(+)

diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index 4576efc..9a6fbaf 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -211,6 +211,8 @@ cdef class JSF(BitGenerator):
         self.seed(seed)
 
     cdef setup_generator(self, object p, object q, object r):
+        # The interfaces are rebuilt from the functions set here
+        self._ctypes = self._cffi = None
         if self.size == 64:
             self._bitgen.next_uint64 = &jsf64_uint64
             self._bitgen.next_uint32 = &jsf64_uint32
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index 33c7bf6..688d3ef 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -208,6 +208,8 @@ cdef class PCG64(BitGenerator):
         else:
             self.variant = "xsl-rr"
 
+        # The interfaces are rebuilt from the functions set here
+        self._ctypes = self._cffi = None
         if not self.cheap_multiplier:
             self._bitgen.next_uint64 = &pcg64_uint64
             self._bitgen.next_uint32 = &pcg64_uint32
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index c70d584..f2df5d9 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -193,6 +193,8 @@ cdef class Philox(BitGenerator):
 
     def _setup_generator(self):
         """Set the functions that will generate the values"""
+        # The interfaces are rebuilt from the functions set here
+        self._ctypes = self._cffi = None
         if self.n == 4 and self.w == 64:
             self._bitgen.next_uint64 = &philox4x64_uint64
             self._bitgen.next_uint32 = &philox4x64_uint32
diff --git a/randomgen/romu.pyx b/randomgen/romu.pyx
index 9ca65f9..7857adb 100644
--- a/randomgen/romu.pyx
+++ b/randomgen/romu.pyx
@@ -100,6 +100,8 @@ cdef class Romu(BitGenerator):
         self._setup_bitgen()
 
     cdef _setup_bitgen(self):
+        # The interfaces are rebuilt from the functions set here
+        self._ctypes = self._cffi = None
         if self.variant == "quad":
             self._bitgen.next_uint64 = &romuquad_uint64
             self._bitgen.next_uint32 = &romuquad_uint32
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 5129aae..5f2daa0 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -446,6 +446,8 @@ cdef class Squares(BitGenerator):
         self._setup_bitgen()
 
     cdef void _setup_bitgen(self):
+        # The interfaces are rebuilt from the functions set here
+        self._ctypes = self._cffi = None
         if self._use64:
             self._bitgen.next_uint64 = &squares_uint64
             self._bitgen.next_uint32 = &squares_uint32
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 8878b80..3c6274c 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -191,6 +191,8 @@ cdef class ThreeFry(BitGenerator):
 
     def _setup_generator(self):
         """Set the functions that will generate the values"""
+        # The interfaces are rebuilt from the functions set here
+        self._ctypes = self._cffi = None
         if self.n == 4 and self.w == 64:
             self._bitgen.next_uint64 = &threefry4x64_uint64
             self._bitgen.next_uint32 = &threefry4x64_uint32
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 078f367..91cb27a 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -115,6 +115,8 @@ cdef class Tyche(BitGenerator):
         self._setup_bitgen()
 
     cdef void _setup_bitgen(self):
+        # The interfaces are rebuilt from the functions set here
+        self._ctypes = self._cffi = None
         if self.original:
             self._bitgen.next_uint64 = &tyche_uint64
             self._bitgen.next_uint32 = &tyche_uint32
diff --git a/randomgen/xoroshiro128.pyx b/randomgen/xoroshiro128.pyx
index 9c72279..a79c119 100644
--- a/randomgen/xoroshiro128.pyx
+++ b/randomgen/xoroshiro128.pyx
@@ -136,6 +136,8 @@ cdef class Xoroshiro128(BitGenerator):
         self._bitgen.state = <void *>&self.rng_state
 
     cdef _set_generators(self):
+        # The interfaces are rebuilt from the functions set here
+        self._ctypes = self._cffi = None
         if self._plusplus:
             self._bitgen.next_uint64 = &xoroshiro128plusplus_uint64
             self._bitgen.next_uint32 = &xoroshiro128plusplus_uint32
-- 
2.43.0

