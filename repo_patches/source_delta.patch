From 5f2fce4545562d0d9a4a96e1106427969e37ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:58 +0000
Subject: [PATCH 01/43] fix: ExtendedGenerator uses stale functions after its
 state is restored

Restoring a state can change the variant of the bit generator (e.g. a
non-default Philox, or the default PCG64 dxsm), but an ExtendedGenerator
kept the function pointers copied when it was created, so unpickled and
copied generators produced a different stream.
---
 randomgen/generator.pyx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 9f46584..7ee0689 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -172,10 +172,20 @@ cdef class ExtendedGenerator:
         if not PyCapsule_IsValid(capsule, name):
             raise ValueError("Invalid bit generator. The bit generator must "
                              "be instantized.")
-        self._bitgen = (<bitgen_t *> PyCapsule_GetPointer(capsule, name))[0]
+        self._set_bitgen()
         self.lock = bit_generator.lock
+
+    cdef _set_bitgen(self):
+        # Setting the state can change the variant of a bit generator and so the
+        # functions used to produce values. These are copied when a generator is
+        # created, and so they must be copied again after the state is set.
         from numpy.random import Generator
-        self._generator = Generator(bit_generator)
+
+        cdef const char *name = "BitGenerator"
+        self._bitgen = (
+            <bitgen_t *> PyCapsule_GetPointer(self._bit_generator.capsule, name)
+        )[0]
+        self._generator = Generator(self._bit_generator)
 
     def __repr__(self):
         out = object.__repr__(self)
@@ -192,6 +202,7 @@ cdef class ExtendedGenerator:
 
     def __setstate__(self, state):
         self.bit_generator.state = state
+        self._set_bitgen()
 
     def __reduce__(self):
         from randomgen._pickle import __extended_generator_ctor
@@ -232,6 +243,7 @@ cdef class ExtendedGenerator:
     @state.setter
     def state(self, value):
         self._bit_generator.state = value
+        self._set_bitgen()
 
     def uintegers(self, size=None, int bits=64):
         """
-- 
2.43.0


From abf312f30db105f6d68e57bda4dbd63e73da28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:07 +0000
Subject: [PATCH 02/43] fix: Squares restores the buffered 32-bit half with its
 state

---
 randomgen/squares.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 1f0ef88..3e4e750 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -547,6 +547,8 @@ cdef class Squares(BitGenerator):
         self.variant = variant
         self._use64 = variant == 64
         self._setup_bitgen()
+        self.rng_state.has_uint32 = value["has_uint32"]
+        self.rng_state.uinteger = value["uinteger"]
 
     def advance(self, uint64_t delta):
         """
-- 
2.43.0


From eb729a934a9ee6de0370272978a0fb75d255da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:35 +0000
Subject: [PATCH 03/43] fix: HC128.seed discards values buffered before
 reseeding

---
 randomgen/src/hc-128/hc-128.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/randomgen/src/hc-128/hc-128.c b/randomgen/src/hc-128/hc-128.c
index 88b2ad4..839cf5b 100644
--- a/randomgen/src/hc-128/hc-128.c
+++ b/randomgen/src/hc-128/hc-128.c
@@ -46,6 +46,10 @@ void hc128_init(hc128_state_t *state, const uint8_t *key, const uint8_t *iv)
         q[i] = round_expression_qp(q, p, i);
 
     state->hc_idx = 0;
+    /* Discard any buffered values */
+    for (i = 0; i < 16; ++i)
+        state->buffer[i] = 0;
+    state->buffer_idx = 0;
 }
 
 void hc128_seed(hc128_state_t *state, uint32_t *seed)
-- 
2.43.0


From a2dab093bd27742ba8e194be7ba1511d6d6d1894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:35 +0000
Subject: [PATCH 04/43] fix: Xorshift1024.seed resets the position in the state
 vector

---
 randomgen/xorshift1024.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index ffcb768..1b71e70 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -135,6 +135,7 @@ cdef class Xorshift1024(BitGenerator):
         state = self._get_seed_seq().generate_state(16, np.uint64)
         for i in range(16):
             self.rng_state.s[i] = state[i]
+        self.rng_state.p = 0
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From f9f2f45c81e3177d743d0a13d93df999cc20704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 05/43] fix: complex_normal scalar draws hold the bit generator
 lock

---
 randomgen/generator.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 7ee0689..cac9e89 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -660,8 +660,9 @@ cdef class ExtendedGenerator:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
             if size is None:
-                f_real = random_standard_normal(&self._bitgen)
-                f_imag = random_standard_normal(&self._bitgen)
+                with self.lock:
+                    f_real = random_standard_normal(&self._bitgen)
+                    f_imag = random_standard_normal(&self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
-- 
2.43.0


From 71ac333713c43b4538b8497c2594bd6a6bd87a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 06/43] fix: random_raw without output draws as many words as
 the requested shape holds

---
 randomgen/common.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 4aa1af1..98fe6de 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -234,7 +234,7 @@ cdef object random_raw(bitgen_t *bitgen, object lock, object size, object output
             with lock:
                 bitgen.next_raw(bitgen.state)
             return None
-        n = np.asarray(size).sum()
+        n = np.prod(size, dtype=np.intp)
         with lock, nogil:
             for i in range(n):
                 bitgen.next_raw(bitgen.state)
-- 
2.43.0


From ae30372d94b1cd0598398dcd7525adb7c6d19547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:09 +0000
Subject: [PATCH 07/43] fix: report failed allocations of bit generator state

Constructors used the result of a failed allocation, and so did the MT19937 jump.
---
 randomgen/aes.pyx                    |  2 ++
 randomgen/chacha.pyx                 |  2 ++
 randomgen/dsfmt.pyx                  |  2 ++
 randomgen/pcg64.pyx                  |  4 ++++
 randomgen/sfmt.pyx                   |  2 ++
 randomgen/speck128.pyx               |  2 ++
 randomgen/src/mt19937/mt19937-jump.c | 12 +++---------
 7 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 8832b44..02af749 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -134,6 +134,8 @@ cdef class AESCounter(BitGenerator):
         self.rng_state = <aesctr_state_t *>PyArray_calloc_aligned(
             sizeof(aesctr_state_t), 1
         )
+        if self.rng_state == NULL:
+            raise MemoryError
         self.seed(seed, counter, key)
 
         self._bitgen.state = <void *>self.rng_state
diff --git a/randomgen/chacha.pyx b/randomgen/chacha.pyx
index 87d63b9..f597e9d 100644
--- a/randomgen/chacha.pyx
+++ b/randomgen/chacha.pyx
@@ -140,6 +140,8 @@ cdef class ChaCha(BitGenerator):
         self.rng_state = <chacha_state_t *>PyArray_malloc_aligned(
             sizeof(chacha_state_t)
         )
+        if self.rng_state == NULL:
+            raise MemoryError
         if rounds % 2 != 0 or rounds <= 0:
             raise ValueError("rounds must be even and >= 2")
         self.rng_state.rounds = rounds
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 9506c3d..8823f8a 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -120,6 +120,8 @@ cdef class DSFMT(BitGenerator):
         self.rng_state.buffered_uniforms = <double *>PyArray_calloc_aligned(
             DSFMT_N64, sizeof(double)
         )
+        if self.rng_state.state == NULL or self.rng_state.buffered_uniforms == NULL:
+            raise MemoryError
         self.rng_state.buffer_loc = DSFMT_N64
         self.seed(seed)
 
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index abed244..b6d03e9 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -168,6 +168,8 @@ cdef class PCG64(BitGenerator):
         self.rng_state.pcg_state = <pcg64_random_t *>PyArray_malloc_aligned(
             sizeof(pcg64_random_t)
         )
+        if self.rng_state.pcg_state == NULL:
+            raise MemoryError
         inc = None if seed is None else inc
 
         variant = "dxsm" if variant is None else variant
@@ -644,6 +646,8 @@ cdef class LCG128Mix(BitGenerator):
         self.rng_state.pcg_state = <lcg128mix_random_t *>PyArray_malloc_aligned(
             sizeof(lcg128mix_random_t)
         )
+        if self.rng_state.pcg_state == NULL:
+            raise MemoryError
         if hasattr(output, "argtypes") and hasattr(output, "restype"):
             from ctypes import c_ulonglong
             if output.argtypes != (c_ulonglong, c_ulonglong):
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 300c4fc..f47afe5 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -119,6 +119,8 @@ cdef class SFMT(BitGenerator):
         self.rng_state.buffered_uint64 = <uint64_t *>PyArray_calloc_aligned(
             SFMT_N64, sizeof(uint64_t)
         )
+        if self.rng_state.state == NULL or self.rng_state.buffered_uint64 == NULL:
+            raise MemoryError
         self.rng_state.buffer_loc = SFMT_N64
         self.seed(seed)
 
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 6dd3e8e..7eb988b 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -152,6 +152,8 @@ cdef class SPECK128(BitGenerator):
         self.rng_state = <speck_state_t *>PyArray_calloc_aligned(
             sizeof(speck_state_t), 1
         )
+        if self.rng_state == NULL:
+            raise MemoryError
         if (rounds <= 0) or rounds > SPECK_MAX_ROUNDS or int(rounds) != rounds:
             raise ValueError("rounds must be an integer in [1, 34]")
         self.rng_state.rounds = int(rounds)
diff --git a/randomgen/src/mt19937/mt19937-jump.c b/randomgen/src/mt19937/mt19937-jump.c
index a68ddb4..ff202b9 100644
--- a/randomgen/src/mt19937/mt19937-jump.c
+++ b/randomgen/src/mt19937/mt19937-jump.c
@@ -102,9 +102,8 @@ void add_state(mt19937_state_t *state1, mt19937_state_t *state2)
 void horner1(unsigned long *pf, mt19937_state_t *state)
 {
     int i = MEXP - 1;
-    mt19937_state_t *temp;
-
-    temp = (mt19937_state_t *)calloc(1, sizeof(mt19937_state_t));
+    mt19937_state_t zero_state = {0};
+    mt19937_state_t *temp = &zero_state;
 
     while (get_coef(pf, i) == 0)
         i--;
@@ -133,16 +132,13 @@ void horner1(unsigned long *pf, mt19937_state_t *state)
         ;
 
     copy_state(state, temp);
-    free(temp);
 }
 
 void mt19937_jump_state(mt19937_state_t *state, const char *jump_str)
 {
-    unsigned long *pf;
+    unsigned long pf[P_SIZE] = {0};
     int i;
 
-    pf = (unsigned long *)calloc(P_SIZE, sizeof(unsigned long));
-
     for (i = MEXP - 1; i > -1; i--)
     {
         if (jump_str[(MEXP - 1) - i] == '1')
@@ -154,6 +150,4 @@ void mt19937_jump_state(mt19937_state_t *state, const char *jump_str)
     }
 
     horner1(pf, state);
-
-    free(pf);
 }
-- 
2.43.0


From 8bd15d69d288a3f14c7f31a9a506077eb29bfb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:09 +0000
Subject: [PATCH 08/43] fix: system entropy does not leak its descriptor when
 the read fails

The fallback reports a failed allocation instead of writing through NULL.
---
 randomgen/src/entropy/entropy.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 17ac8c4..905eacb 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -82,9 +82,8 @@ bool entropy_getbytes(void *dest, size_t size) {
   if (fd < 0)
     return false;
   ssize_t sz = read(fd, dest, size);
-  if ((sz < 0) || ((size_t)sz < size))
-    return false;
-  return close(fd) == 0;
+  bool closed = close(fd) == 0;
+  return closed && (sz >= 0) && ((size_t)sz == size);
 }
 #endif
 
@@ -154,6 +153,8 @@ uint32_t entropy_randombytes(void) {
 bool entropy_fallback_getbytes(void *dest, size_t size) {
   int hashes = (int)size;
   uint32_t *hash = malloc(hashes * sizeof(uint32_t));
+  if (hash == NULL)
+    return false;
   // uint32_t hash[hashes];
   int i;
   for (i = 0; i < hashes; i++) {
-- 
2.43.0


From 942c2de9bb9bdc3446647d769954363d7d1af91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:55 +0000
Subject: [PATCH 09/43] fix: random_entropy accepts empty shapes

---
 randomgen/entropy.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 8fc1afb..a7beea0 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -172,6 +172,8 @@ def random_entropy(size=None, source="system"):
             success = entropy_fallback_getbytes(<void *>&random, 4)
     else:
         n = compute_numel(size)
+        if n == 0:
+            return np.zeros(size, dtype=np.uint32)
         randoms = np.zeros(n, dtype=np.uint32)
         if source in ("system", "auto"):
             success = entropy_getbytes(<void *>(&randoms[0]), 4 * n)
-- 
2.43.0


From ab77326f76c4c8c036e02f74af10eae3ebe43596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:55 +0000
Subject: [PATCH 10/43] fix: RDRAND refills its buffer after a failure instead
 of reading past it

---
 randomgen/rdrand.pyx | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index f27f5a7..a60923d 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -30,13 +30,9 @@ cdef uint64_t rdrand_uint64(void* st) noexcept nogil:
     cdef uint64_t val
     state = <rdrand_state*>st
     status = 1
-    if state.status == 1 and state.buffer_loc < BUFFER_SIZE:
-        val = state.buffer[state.buffer_loc]
-        state.buffer_loc += 1
-        return val
-    elif state.status == 1:
-        # Only refill if good status
-        # This function will
+    if state.buffer_loc >= BUFFER_SIZE:
+        # Never read past the buffer, even after a failure. The status of
+        # state remains 0 after a failure until it is reset
         status = rdrand_fill_buffer(state)
     val = state.buffer[state.buffer_loc]
     state.buffer_loc += 1
-- 
2.43.0


From d15610d5a86f5dc93e171097fd3a83c4b2f5eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:55 +0000
Subject: [PATCH 11/43] fix: RDRAND.random_raw without output accepts shapes
 and jumped keeps the retries

---
 randomgen/rdrand.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index a60923d..02e8805 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -360,7 +360,7 @@ cdef class RDRAND(BitGenerator):
         cdef int status
 
         if not output:
-            n = 1 if size is None else size
+            n = 1 if size is None else np.prod(size, dtype=np.intp)
             status = self.rng_state.status
             with self.lock, nogil:
                 for i in range(n):
@@ -417,6 +417,7 @@ cdef class RDRAND(BitGenerator):
         """
         cdef RDRAND bit_generator
         bit_generator = self.__class__()
+        bit_generator.rng_state.retries = self.rng_state.retries
         bit_generator._set_seed_seq(self._seed_seq)
 
         return bit_generator
-- 
2.43.0


From 421821a804296a75139e8f63b45bfd103efb0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:47 +0000
Subject: [PATCH 12/43] fix: ExtendedGenerator.random rejects output that is
 not an array instead of crashing

---
 randomgen/broadcasting.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/broadcasting.pyx b/randomgen/broadcasting.pyx
index 126ffb6..236537f 100644
--- a/randomgen/broadcasting.pyx
+++ b/randomgen/broadcasting.pyx
@@ -97,6 +97,8 @@ cdef check_output(object out, object dtype, object size, bint require_c_array):
     """
     if out is None:
         return
+    if not isinstance(out, np.ndarray):
+        raise TypeError('Supplied output array must be an ndarray.')
     cdef np.ndarray out_array = <np.ndarray> out
     if not (np.PyArray_ISCARRAY(out_array) or
             (np.PyArray_ISFARRAY(out_array) and not require_c_array)):
-- 
2.43.0


From ec3c87d06f7615a6ff37205ad6a1997e8978b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 13/43] fix: LCG128Mix keeps its configuration with its state

Generators made by jumped, pickle or a restored state were reseeded with the default
multiplier and reported a stale output function; the setter also wrote part of a
state before rejecting it.
---
 randomgen/pcg64.pyx | 49 +++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index b6d03e9..ead0581 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -823,6 +823,11 @@ cdef class LCG128Mix(BitGenerator):
     @state.setter
     def state(self, value):
         cdef np.ndarray state_vec, inc_vec, mult_vec
+        cdef int has_uint32, output_idx
+        cdef uint32_t uinteger
+        cdef uint64_t dxsm_multiplier
+        cdef bint post
+        cdef size_t address
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -843,6 +848,20 @@ cdef class LCG128Mix(BitGenerator):
         mult_vec[1] = multiplier % 2 ** 64
         has_uint32 = value["has_uint32"]
         uinteger = value["uinteger"]
+        dxsm_multiplier = value["state"]["dxsm_multiplier"]
+        post = value["state"]["post"]
+        output_func = value["state"]["output_func"]
+        if isinstance(output_func, str):
+            output_idx = self._output_lookup[output_func]
+            cfunc, address = None, 0
+        elif not (hasattr(output_func, "argtypes") and hasattr(output_func, "restype")):
+            raise ValueError("output_func must be a string or a ctypes function")
+        else:
+            import ctypes
+
+            output_idx = -1
+            cfunc = output_func
+            address = ctypes.cast(cfunc, ctypes.c_void_p).value
 
         # Default False for backward compat
         lcg128mix_set_state(self.rng_state.pcg_state,
@@ -852,23 +871,19 @@ cdef class LCG128Mix(BitGenerator):
                             )
         self.rng_state.has_uint32 = has_uint32
         self.rng_state.uinteger = uinteger
-        self.rng_state.pcg_state.dxsm_multiplier = value["state"]["dxsm_multiplier"]
-        self.rng_state.pcg_state.post = value["state"]["post"]
-        output_func = value["state"]["output_func"]
-        if isinstance(output_func, str):
-            self.rng_state.pcg_state.output_idx = self._output_lookup[output_func]
-        elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
-            import ctypes
-
-            self._cfunc = output_func
-            self.output_function = -1
-            self.output_function_address = (
-                ctypes.cast(self._cfunc, ctypes.c_void_p).value
-            )
-            self.rng_state.pcg_state.output_idx = -1
-            self.rng_state.pcg_state.output_func = (
-                <pcg_output_func_t>self.output_function_address
-            )
+        # The configuration travels with the state
+        self.multiplier = multiplier
+        self.dxsm_multiplier = dxsm_multiplier
+        self.post = post
+        self.output_function = output_idx
+        self._cfunc = cfunc
+        self.output_function_address = address
+        self.rng_state.pcg_state.dxsm_multiplier = self.dxsm_multiplier
+        self.rng_state.pcg_state.post = self.post
+        self.rng_state.pcg_state.output_idx = self.output_function
+        self.rng_state.pcg_state.output_func = (
+            <pcg_output_func_t>self.output_function_address
+        )
 
     def advance(self, delta):
         """
-- 
2.43.0


From b44976ed51a15ea426939af78ff142d03aa8e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 14/43] fix: Philox and ThreeFry advance keeps the top bits of
 the step

Negative steps and steps of at least a quarter of the period lost the bits of
the step above the counter's last word and ended at the wrong place.
---
 randomgen/src/philox/philox.c     | 4 +---
 randomgen/src/threefry/threefry.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index e98d72e..aa5d721 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -17,9 +17,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
       adj_step = step[i] / N;                                                             \
       /* Add in the lower bits from the next step size */                                 \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                      \
-      if (i < (N - 1)){                                                                   \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                   \
-      }                                                                                   \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
       last = state->state.state##N##x##W.ctr.v[i];                                        \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                           \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                             \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 53a788e..1afa636 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -17,9 +17,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
       adj_step = step[i] / N;                                                               \
       /* Add in the lower bits from the next step size */                                   \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                        \
-      if (i < (N - 1)){                                                                     \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
-      }                                                                                     \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                       \
       last = state->state.state##N##x##W.ctr.v[i];                                          \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                             \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                               \
-- 
2.43.0


From 54342bbdb8c0eff318882645198e88c7efb783b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 15/43] fix: Philox and ThreeFry with two words advance from a
 new generator

A new generator has its buffer position at the size of the buffer, which is
more than the two words of these variants. Even steps of the first advance did
not account for the unused block and ended one block short.
---
 randomgen/src/philox/philox.c     | 8 +++++---
 randomgen/src/threefry/threefry.c | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index aa5d721..908481d 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -5,12 +5,14 @@
 #define _philoxNxW_advance_tpl(N, W)                                         \
 void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_carry) {   \
   /* step has N+1 elements */                                                             \
-  int i, next_buffer_pos;                                                                 \
+  int i, pos, next_buffer_pos;                                                            \
   uint##W##_t last, carry, rem, adj_step;                                                 \
   philox##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                      \
-  next_buffer_pos = state->buffer_pos + rem;                                              \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
+  /* Nothing is buffered at N or beyond, where new generators start */                    \
+  pos = state->buffer_pos < N ? state->buffer_pos : N;                                    \
+  next_buffer_pos = pos + rem;                                                            \
+  carry = (((pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))               \
             && (use_carry > 0);                                                           \
   state->buffer_pos = next_buffer_pos % N;                                                \
   for (i = 0; i < N; i++) {                                                               \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 1afa636..ac16796 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -5,12 +5,14 @@
 #define _threefryNxW_advance_tpl(N, W)                                         \
 void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int use_carry) { \
   /* step has N+1 elements */                                                               \
-  int i, next_buffer_pos;                                                                   \
+  int i, pos, next_buffer_pos;                                                              \
   uint##W##_t last, carry, rem, adj_step;                                                   \
   threefry##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                        \
-  next_buffer_pos = state->buffer_pos + rem;                                                \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
+  /* Nothing is buffered at N or beyond, where new generators start */                      \
+  pos = state->buffer_pos < N ? state->buffer_pos : N;                                      \
+  next_buffer_pos = pos + rem;                                                              \
+  carry = (((pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))                 \
             && (use_carry > 0);                                                             \
   state->buffer_pos = next_buffer_pos % N;                                                  \
   for (i = 0; i < N; i++) {                                                                 \
-- 
2.43.0


From e5328cb1749afa4623d1800398004058d659e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:42 +0000
Subject: [PATCH 16/43] fix: Philox uses the counter it is given with
 numpy_seed=True

---
 randomgen/philox.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index c70d584..a31336f 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -242,7 +242,7 @@ cdef class Philox(BitGenerator):
     def _seed_from_seq_numpy_compat(self, counter=None):
         if self.n != 4 or self.w != 64:
             raise ValueError("n must be 4 and w must br 64 when using mode='numpy'")
-        return self._seed_from_seq()
+        return self._seed_from_seq(counter=counter)
 
     def seed(self, seed=None, counter=None, key=None):
         """
-- 
2.43.0


From cdce1b2919a927447141449d0cc4bfedf80fa09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:21 +0000
Subject: [PATCH 17/43] fix: wishart validates the scale before drawing

---
 randomgen/generator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index cac9e89..cf50274 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -925,8 +925,8 @@ cdef class ExtendedGenerator:
         df_size = np.shape(df_arr)
         if not df_size and not shape_size:
             df_i = df_arr.item()
-            out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
+            out = self.standard_wishart(df_i, dim, size, False)
             np.matmul(factor, out, out=out)
             np.matmul(out, factor.T, out=out)
             return out
-- 
2.43.0


From a7b9b671242991223a5b89e64d70cfe82e75ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:21 +0000
Subject: [PATCH 18/43] fix: a rejected state leaves the bit generator
 unchanged

---
 randomgen/aes.pyx          | 12 +++++++-----
 randomgen/chacha.pyx       | 10 ++++++----
 randomgen/dsfmt.pyx        | 14 ++++++++++----
 randomgen/efiix64.pyx      | 20 +++++++++++---------
 randomgen/hc128.pyx        | 12 +++++++-----
 randomgen/jsf.pyx          | 34 +++++++++++++++++++++-------------
 randomgen/lxm.pyx          | 12 +++++++-----
 randomgen/mt19937.pyx      |  6 ++++--
 randomgen/mt64.pyx         | 10 ++++++----
 randomgen/pcg32.pyx        |  6 ++++--
 randomgen/philox.pyx       | 33 ++++++++++++++++++++++-----------
 randomgen/romu.pyx         | 17 ++++++++++-------
 randomgen/sfc.pyx          | 16 +++++++++-------
 randomgen/sfmt.pyx         | 19 +++++++++++++------
 randomgen/speck128.pyx     | 20 +++++++++++---------
 randomgen/squares.pyx      | 18 ++++++++++--------
 randomgen/threefry.pyx     | 33 ++++++++++++++++++++++-----------
 randomgen/tyche.pyx        | 13 ++++++++-----
 randomgen/xoroshiro128.pyx | 10 ++++++----
 randomgen/xorshift1024.pyx | 10 ++++++----
 randomgen/xoshiro256.pyx   | 14 ++++++++------
 randomgen/xoshiro512.pyx   |  8 +++++---
 22 files changed, 213 insertions(+), 134 deletions(-)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 02af749..22267bb 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -279,6 +279,7 @@ cdef class AESCounter(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef aesctr_state_t new_state = self.rng_state[0]
         cdef np.npy_intp i
 
         if not isinstance(value, dict):
@@ -289,8 +290,8 @@ cdef class AESCounter(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state =value["s"]["state"]
         for i in range(16 * 4):
-            self.rng_state.state[i] = state[i]
-        self.rng_state.offset = value["s"]["offset"]
+            new_state.state[i] = state[i]
+        new_state.offset = value["s"]["offset"]
         seed = np.ascontiguousarray(value["s"]["seed"], dtype=np.uint64)
         counter = np.ascontiguousarray(value["s"]["counter"], dtype=np.uint64)
         if seed.ndim != 1 or seed.shape[0] != 2 * (10 + 1):
@@ -298,11 +299,12 @@ cdef class AESCounter(BitGenerator):
         if counter.ndim != 1 or counter.shape[0] != 2 * (4):
             raise ValueError("counter must be a 1d uint64 array with 8 "
                              "elements")
-        aesctr_set_seed_counter(self.rng_state,
+        aesctr_set_seed_counter(&new_state,
                                 <uint64_t*>np.PyArray_DATA(seed),
                                 <uint64_t*>np.PyArray_DATA(counter))
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.rng_state[0] = new_state
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/chacha.pyx b/randomgen/chacha.pyx
index f597e9d..c46b3d8 100644
--- a/randomgen/chacha.pyx
+++ b/randomgen/chacha.pyx
@@ -276,6 +276,7 @@ cdef class ChaCha(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef chacha_state_t new_state = self.rng_state[0]
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -286,11 +287,12 @@ cdef class ChaCha(BitGenerator):
         state = value["state"]
         block = state["block"]
         for i in range(16):
-            self.rng_state.block[i] = block[i]
+            new_state.block[i] = block[i]
         keysetup = state["keysetup"]
         for i in range(8):
-            self.rng_state.keysetup[i] = keysetup[i]
+            new_state.keysetup[i] = keysetup[i]
         ctr = state["ctr"]
         for i in range(2):
-            self.rng_state.ctr[i] = ctr[i]
-        self.rng_state.rounds = state["rounds"]
+            new_state.ctr[i] = ctr[i]
+        new_state.rounds = state["rounds"]
+        self.rng_state[0] = new_state
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 8823f8a..bfc36fc 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -272,6 +272,7 @@ cdef class DSFMT(BitGenerator):
     @state.setter
     def state(self, value):
         cdef Py_ssize_t i, j, loc = 0
+        cdef int idx, buffer_loc
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -280,13 +281,18 @@ cdef class DSFMT(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["state"], 2*DSFMT_N_PLUS_1,
                                   64, "state")
+        idx = value["state"]["idx"]
+        buffered_uniforms = np.array(value["buffered_uniforms"], dtype=np.double)
+        if buffered_uniforms.ndim != 1 or buffered_uniforms.shape[0] != DSFMT_N64:
+            raise ValueError("State element buffered_uniforms must be a 1-d array "
+                             "with {0} elements".format(DSFMT_N64))
+        buffer_loc = value["buffer_loc"]
+
         for i in range(DSFMT_N_PLUS_1):
             for j in range(2):
                 self.rng_state.state.status[i].u[j] = state[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
-        buffered_uniforms = value["buffered_uniforms"]
-        # TODO: Check buffered_uniforms
+        self.rng_state.state.idx = idx
         for i in range(DSFMT_N64):
             self.rng_state.buffered_uniforms[i] = buffered_uniforms[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
+        self.rng_state.buffer_loc = buffer_loc
diff --git a/randomgen/efiix64.pyx b/randomgen/efiix64.pyx
index 92cae6d..3338500 100644
--- a/randomgen/efiix64.pyx
+++ b/randomgen/efiix64.pyx
@@ -184,6 +184,7 @@ cdef class EFIIX64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef efiix64_state_t new_state = self.rng_state
         cdef Py_ssize_t i
         cdef uint64_t *arr
 
@@ -201,7 +202,7 @@ cdef class EFIIX64(BitGenerator):
                                               "indirection_table")
         arr = <np.uint64_t *>np.PyArray_DATA(indirection_table)
         for i in range(0, INDIRECTION_SIZE):
-            self.rng_state.indirection_table[i] = arr[i]
+            new_state.indirection_table[i] = arr[i]
 
         iteration_table = check_state_array(state["iteration_table"],
                                             ITERATION_SIZE,
@@ -209,11 +210,12 @@ cdef class EFIIX64(BitGenerator):
                                             "iteration_table")
         arr = <np.uint64_t *>np.PyArray_DATA(iteration_table)
         for i in range(0, ITERATION_SIZE):
-            self.rng_state.iteration_table[i] = arr[i]
-        self.rng_state.i = state["i"]
-        self.rng_state.a = state["a"]
-        self.rng_state.b = state["b"]
-        self.rng_state.c = state["c"]
-
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            new_state.iteration_table[i] = arr[i]
+        new_state.i = state["i"]
+        new_state.a = state["a"]
+        new_state.b = state["b"]
+        new_state.c = state["c"]
+
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.rng_state = new_state
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index b14ec79..74269d0 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -202,6 +202,7 @@ cdef class HC128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef hc128_state_t new_state = self.rng_state
         cdef int i
         cdef uint32_t *p_arr
         cdef uint32_t *q_arr
@@ -220,10 +221,11 @@ cdef class HC128(BitGenerator):
         p_arr = <uint32_t *>np.PyArray_DATA(p)
         q_arr = <uint32_t *>np.PyArray_DATA(q)
         for i in range(512):
-            self.rng_state.p[i] = p_arr[i]
-            self.rng_state.q[i] = q_arr[i]
+            new_state.p[i] = p_arr[i]
+            new_state.q[i] = q_arr[i]
         buf_arr = <uint32_t *>np.PyArray_DATA(buffer)
         for i in range(16):
-            self.rng_state.buffer[i] = buf_arr[i]
-        self.rng_state.hc_idx = state["hc_idx"]
-        self.rng_state.buffer_idx = state["buffer_idx"]
+            new_state.buffer[i] = buf_arr[i]
+        new_state.hc_idx = state["hc_idx"]
+        new_state.buffer_idx = state["buffer_idx"]
+        self.rng_state = new_state
diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index 4576efc..4e16e54 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -301,26 +301,34 @@ cdef class JSF(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef jsf_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.size = value["size"]
+        size = value["size"]
+        if size not in (32, 64):
+            raise ValueError("size must be either 32 or 64")
         state = value["state"]
-        self.setup_generator(state["p"], state["q"], state["r"])
-        if self.size == 64:
-            self.rng_state.a.u64 = state["a"]
-            self.rng_state.b.u64 = state["b"]
-            self.rng_state.c.u64 = state["c"]
-            self.rng_state.d.u64 = state["d"]
+        new_state.p = state["p"]
+        new_state.q = state["q"]
+        new_state.r = state["r"]
+        if size == 64:
+            new_state.a.u64 = state["a"]
+            new_state.b.u64 = state["b"]
+            new_state.c.u64 = state["c"]
+            new_state.d.u64 = state["d"]
         else:
-            self.rng_state.a.u32 = state["a"]
-            self.rng_state.b.u32 = state["b"]
-            self.rng_state.c.u32 = state["c"]
-            self.rng_state.d.u32 = state["d"]
+            new_state.a.u32 = state["a"]
+            new_state.b.u32 = state["b"]
+            new_state.c.u32 = state["c"]
+            new_state.d.u32 = state["d"]
 
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
         self.seed_size = value["seed_size"]
+        self.size = size
+        self.setup_generator(new_state.p, new_state.q, new_state.r)
+        self.rng_state = new_state
diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index f927877..3702014 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -274,6 +274,7 @@ cdef class LXM(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef lxm_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -282,8 +283,9 @@ cdef class LXM(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["x"], 4, 64, "x")
         for i in range(4):
-            self.rng_state.x[i] = <uint64_t>state[i]
-        self.rng_state.lcg_state = value["state"]["lcg_state"]
-        self.rng_state.b = value["state"]["b"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            new_state.x[i] = <uint64_t>state[i]
+        new_state.lcg_state = value["state"]["lcg_state"]
+        new_state.b = value["state"]["b"]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.rng_state = new_state
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index 2f14d4d..007eeaf 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -296,6 +296,7 @@ cdef class MT19937(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef mt19937_state_t new_state = self.rng_state
         if isinstance(value, tuple):
             if value[0] != "MT19937" or len(value) not in (3, 5):
                 raise ValueError("state is not a legacy MT19937 state")
@@ -310,5 +311,6 @@ cdef class MT19937(BitGenerator):
                              "PRNG".format(type(self).__name__))
         key = check_state_array(value["state"]["key"], RK_STATE_LEN, 32, "key")
         for i in range(RK_STATE_LEN):
-            self.rng_state.key[i] = key[i]
-        self.rng_state.pos = value["state"]["pos"]
+            new_state.key[i] = key[i]
+        new_state.pos = value["state"]["pos"]
+        self.rng_state = new_state
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index 2dbaf5a..bab1cc1 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -158,6 +158,7 @@ cdef class MT64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef mt64_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -166,7 +167,8 @@ cdef class MT64(BitGenerator):
                              "PRNG".format(type(self).__name__))
         key = check_state_array(value["state"]["key"], 312, 64, "key")
         for i in range(312):
-            self.rng_state.mt[i] = key[i]
-        self.rng_state.mti = value["state"]["pos"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            new_state.mt[i] = key[i]
+        new_state.mti = value["state"]["pos"]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.rng_state = new_state
diff --git a/randomgen/pcg32.pyx b/randomgen/pcg32.pyx
index 08f8151..4c0d361 100644
--- a/randomgen/pcg32.pyx
+++ b/randomgen/pcg32.pyx
@@ -167,14 +167,16 @@ cdef class PCG32(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef pcg32_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.pcg_state.state = value["state"]["state"]
-        self.rng_state.pcg_state.inc = value["state"]["inc"]
+        new_state.pcg_state.state = value["state"]["state"]
+        new_state.pcg_state.inc = value["state"]["inc"]
+        self.rng_state = new_state
 
     def advance(self, delta):
         """
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index a31336f..3d15468 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -368,21 +368,32 @@ cdef class Philox(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef int number, width, has_uint32, buffer_pos
+        cdef uint32_t uinteger
+
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        # Default for previous version
-        self.rng_state.number = self.n = value.get("number", 4)
-        self.rng_state.width = self.w = value.get("width", 64)
-        self._setup_generator()
-
+        # Validate everything before the first write so that a rejected state
+        # leaves the generator unchanged. Default for previous version
+        number = value.get("number", 4)
+        width = value.get("width", 64)
+        if number not in (2, 4) or width not in (32, 64):
+            raise ValueError("number must be 2 or 4 and width must be 32 or 64")
         state = value["state"]
-        ctr = check_state_array(state["counter"], self.n, self.w, "counter")
-        key = check_state_array(state["key"], self.n // 2, self.w, "key")
-        buffer = check_state_array(value["buffer"], self.n, self.w, "buffer")
+        ctr = check_state_array(state["counter"], number, width, "counter")
+        key = check_state_array(state["key"], number // 2, width, "key")
+        buffer = check_state_array(value["buffer"], number, width, "buffer")
+        has_uint32 = value["has_uint32"]
+        uinteger = value["uinteger"]
+        buffer_pos = value["buffer_pos"]
+
+        self.rng_state.number = self.n = number
+        self.rng_state.width = self.w = width
+        self._setup_generator()
         # Reset to make sure buffer is 0ed
         self._reset_state_variables()
         for i in range(self.n):
@@ -408,9 +419,9 @@ cdef class Philox(BitGenerator):
             else:  # self.n == 4 and self.w == 64
                 self.rng_state.state.state4x64.key.v[i] = key[i]
 
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+        self.rng_state.has_uint32 = has_uint32
+        self.rng_state.uinteger = uinteger
+        self.rng_state.buffer_pos = buffer_pos
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/romu.pyx b/randomgen/romu.pyx
index 9ca65f9..4811fc7 100644
--- a/randomgen/romu.pyx
+++ b/randomgen/romu.pyx
@@ -180,17 +180,20 @@ cdef class Romu(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef romu_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.w = value["state"]["w"]
-        self.rng_state.x = value["state"]["x"]
-        self.rng_state.y = value["state"]["y"]
-        self.rng_state.z = value["state"]["z"]
-        self.variant = self._check_variant(value["state"]["variant"])
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        new_state.w = value["state"]["w"]
+        new_state.x = value["state"]["x"]
+        new_state.y = value["state"]["y"]
+        new_state.z = value["state"]["z"]
+        variant = self._check_variant(value["state"]["variant"])
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.variant = variant
         self._setup_bitgen()
+        self.rng_state = new_state
diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index e16d8eb..192a0c7 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -353,16 +353,18 @@ cdef class SFC64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef sfc_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.a = value["state"]["a"]
-        self.rng_state.b = value["state"]["b"]
-        self.rng_state.c = value["state"]["c"]
-        self.rng_state.w = value["state"]["w"]
-        self.rng_state.k = value["state"]["k"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        new_state.a = value["state"]["a"]
+        new_state.b = value["state"]["b"]
+        new_state.c = value["state"]["c"]
+        new_state.w = value["state"]["w"]
+        new_state.k = value["state"]["k"]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.rng_state = new_state
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index f47afe5..df54ee9 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -278,6 +278,8 @@ cdef class SFMT(BitGenerator):
     @state.setter
     def state(self, value):
         cdef Py_ssize_t i, j, loc = 0
+        cdef int idx, buffer_loc, has_uint32
+        cdef uint32_t uinteger
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -287,15 +289,20 @@ cdef class SFMT(BitGenerator):
         state = check_state_array(value["state"]["state"], 4 * SFMT_N, 32,
                                   "state")
         state = state.view(np.uint64)
+        idx = value["state"]["idx"]
+        buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
+                                            64,  "buffered_uint64")
+        buffer_loc = value["buffer_loc"]
+        has_uint32 = value["has_uint32"]
+        uinteger = value["uinteger"]
+
         for i in range(SFMT_N):
             for j in range(2):
                 self.rng_state.state.state[i].u64[j] = state[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
-        buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
-                                            64,  "buffered_uint64")
+        self.rng_state.state.idx = idx
         for i in range(SFMT_N64):
             self.rng_state.buffered_uint64[i] = buffered_uint64[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        self.rng_state.buffer_loc = buffer_loc
+        self.rng_state.has_uint32 = has_uint32
+        self.rng_state.uinteger = uinteger
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 7eb988b..ea0cefc 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -303,6 +303,7 @@ cdef class SPECK128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef speck_state_t new_state = self.rng_state[0]
         cdef i
         cdef uint8_t *arr8
         cdef uint64_t *arr
@@ -323,21 +324,22 @@ cdef class SPECK128(BitGenerator):
 
         arr = <uint64_t*>np.PyArray_DATA(ctr)
         for i in range(SPECK_UNROLL):
-            self.rng_state.ctr[i//2].u64[i % 2] = arr[i]
+            new_state.ctr[i//2].u64[i % 2] = arr[i]
 
         arr8 = <uint8_t*>np.PyArray_DATA(buffer)
         for i in range(8*SPECK_UNROLL):
-            self.rng_state.buffer[i] = arr8[i]
+            new_state.buffer[i] = arr8[i]
 
         arr = <uint64_t*>np.PyArray_DATA(round_key)
         for i in range(SPECK_MAX_ROUNDS):
-            self.rng_state.round_key[i].u64[0] = arr[2 * i]
-            self.rng_state.round_key[i].u64[1] = arr[2 * i + 1]
-
-        self.rng_state.rounds = state["rounds"]
-        self.rng_state.offset = state["offset"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            new_state.round_key[i].u64[0] = arr[2 * i]
+            new_state.round_key[i].u64[1] = arr[2 * i + 1]
+
+        new_state.rounds = state["rounds"]
+        new_state.offset = state["offset"]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.rng_state[0] = new_state
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 3e4e750..0fcb68e 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -502,12 +502,12 @@ cdef class Squares(BitGenerator):
             If seed values are out of range for the PRNG.
         """
 
-        if counter is not None:
-            self.rng_state.counter = self._check_value(counter, "counter", False)
-        else:
-            self.rng_state.counter = counter = 0
+        if counter is None:
+            counter = 0
+        counter = self._check_value(counter, "counter", False)
         if key is not None:
             self.rng_state.key = self._check_value(key, "key", True)
+            self.rng_state.counter = counter
         else:
             BitGenerator._seed_with_seed_sequence(self, seed, counter=counter)
         self._reset_state_variables()
@@ -532,6 +532,7 @@ cdef class Squares(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef squares_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -539,16 +540,17 @@ cdef class Squares(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = value["state"]
-        self.rng_state.key = state["key"]
-        self.rng_state.counter = state["counter"]
+        new_state.key = state["key"]
+        new_state.counter = state["counter"]
         variant = value["variant"]
         if variant not in (64, 32):
             raise ValueError("variant must be either 64 or 32.")
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
         self.variant = variant
         self._use64 = variant == 64
         self._setup_bitgen()
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        self.rng_state = new_state
 
     def advance(self, uint64_t delta):
         """
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 8878b80..59a3f56 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -353,21 +353,32 @@ cdef class ThreeFry(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef int number, width, has_uint32, buffer_pos
+        cdef uint32_t uinteger
+
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        # Default for previous version
-        self.rng_state.number = self.n = value.get("number", 4)
-        self.rng_state.width = self.w = value.get("width", 64)
-        self._setup_generator()
-
+        # Validate everything before the first write so that a rejected state
+        # leaves the generator unchanged. Default for previous version
+        number = value.get("number", 4)
+        width = value.get("width", 64)
+        if number not in (2, 4) or width not in (32, 64):
+            raise ValueError("number must be 2 or 4 and width must be 32 or 64")
         state = value["state"]
-        ctr = check_state_array(state["counter"], self.n, self.w, "counter")
-        key = check_state_array(state["key"], self.n, self.w, "key")
-        buffer = check_state_array(value["buffer"], self.n, self.w, "buffer")
+        ctr = check_state_array(state["counter"], number, width, "counter")
+        key = check_state_array(state["key"], number, width, "key")
+        buffer = check_state_array(value["buffer"], number, width, "buffer")
+        has_uint32 = value["has_uint32"]
+        uinteger = value["uinteger"]
+        buffer_pos = value["buffer_pos"]
+
+        self.rng_state.number = self.n = number
+        self.rng_state.width = self.w = width
+        self._setup_generator()
         # Reset to make sure buffer is 0ed
         self._reset_state_variables()
         for i in range(self.n):
@@ -388,9 +399,9 @@ cdef class ThreeFry(BitGenerator):
                     self.rng_state.state.state4x64.ctr.v[i] = ctr[i]
                     self.rng_state.state.state4x64.key.v[i] = key[i]
 
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+        self.rng_state.has_uint32 = has_uint32
+        self.rng_state.uinteger = uinteger
+        self.rng_state.buffer_pos = buffer_pos
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 078f367..ffb2a9c 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -187,6 +187,7 @@ cdef class Tyche(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef tyche_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -194,9 +195,11 @@ cdef class Tyche(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = value["state"]
-        self.original = bool(state["original"])
-        self.rng_state.a = state["a"]
-        self.rng_state.b = state["b"]
-        self.rng_state.c = state["c"]
-        self.rng_state.d = state["d"]
+        original = bool(state["original"])
+        new_state.a = state["a"]
+        new_state.b = state["b"]
+        new_state.c = state["c"]
+        new_state.d = state["d"]
+        self.original = original
         self._setup_bitgen()
+        self.rng_state = new_state
diff --git a/randomgen/xoroshiro128.pyx b/randomgen/xoroshiro128.pyx
index 9c72279..323c8d5 100644
--- a/randomgen/xoroshiro128.pyx
+++ b/randomgen/xoroshiro128.pyx
@@ -280,6 +280,7 @@ cdef class Xoroshiro128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xoroshiro128_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -287,12 +288,13 @@ cdef class Xoroshiro128(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["s"], 2, 64, "s")
-        self.rng_state.s[0] = <uint64_t>state[0]
-        self.rng_state.s[1] = <uint64_t>state[1]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        new_state.s[0] = <uint64_t>state[0]
+        new_state.s[1] = <uint64_t>state[1]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
         plusplus = False
         if "plusplus" in value:
             plusplus = value["plusplus"]
         self._plusplus = plusplus
         self._set_generators()
+        self.rng_state = new_state
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index 1b71e70..9a62d91 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -256,6 +256,7 @@ cdef class Xorshift1024(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xorshift1024_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -264,7 +265,8 @@ cdef class Xorshift1024(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["s"], 16, 64, "s")
         for i in range(16):
-            self.rng_state.s[i] = <uint64_t>state[i]
-        self.rng_state.p = value["state"]["p"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            new_state.s[i] = <uint64_t>state[i]
+        new_state.p = value["state"]["p"]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.rng_state = new_state
diff --git a/randomgen/xoshiro256.pyx b/randomgen/xoshiro256.pyx
index b8657ad..9fca580 100644
--- a/randomgen/xoshiro256.pyx
+++ b/randomgen/xoshiro256.pyx
@@ -257,6 +257,7 @@ cdef class Xoshiro256(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xoshiro256_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -264,9 +265,10 @@ cdef class Xoshiro256(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["s"], 4, 64, "s")
-        self.rng_state.s[0] = <uint64_t>state[0]
-        self.rng_state.s[1] = <uint64_t>state[1]
-        self.rng_state.s[2] = <uint64_t>state[2]
-        self.rng_state.s[3] = <uint64_t>state[3]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        new_state.s[0] = <uint64_t>state[0]
+        new_state.s[1] = <uint64_t>state[1]
+        new_state.s[2] = <uint64_t>state[2]
+        new_state.s[3] = <uint64_t>state[3]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.rng_state = new_state
diff --git a/randomgen/xoshiro512.pyx b/randomgen/xoshiro512.pyx
index 142559f..2204cbb 100644
--- a/randomgen/xoshiro512.pyx
+++ b/randomgen/xoshiro512.pyx
@@ -252,6 +252,7 @@ cdef class Xoshiro512(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xoshiro512_state_t new_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -260,6 +261,7 @@ cdef class Xoshiro512(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["s"], 8, 64, "s")
         for i in range(8):
-            self.rng_state.s[i] = <uint64_t>state[i]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            new_state.s[i] = <uint64_t>state[i]
+        new_state.has_uint32 = value["has_uint32"]
+        new_state.uinteger = value["uinteger"]
+        self.rng_state = new_state
-- 
2.43.0


From bab8bb3a90d4a50110b13262f2028d26d97d0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:00 +0000
Subject: [PATCH 19/43] fix: state setters reject positions outside the buffers

---
 randomgen/aes.pyx          | 2 ++
 randomgen/dsfmt.pyx        | 3 +++
 randomgen/hc128.pyx        | 4 ++++
 randomgen/mt19937.pyx      | 2 ++
 randomgen/mt64.pyx         | 3 +++
 randomgen/philox.pyx       | 3 +++
 randomgen/sfmt.pyx         | 3 +++
 randomgen/speck128.pyx     | 5 +++++
 randomgen/threefry.pyx     | 3 +++
 randomgen/xorshift1024.pyx | 2 ++
 10 files changed, 30 insertions(+)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 22267bb..0a7b34b 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -292,6 +292,8 @@ cdef class AESCounter(BitGenerator):
         for i in range(16 * 4):
             new_state.state[i] = state[i]
         new_state.offset = value["s"]["offset"]
+        if new_state.offset > 64 or new_state.offset % 8:
+            raise ValueError("offset must be a multiple of 8 in [0, 64]")
         seed = np.ascontiguousarray(value["s"]["seed"], dtype=np.uint64)
         counter = np.ascontiguousarray(value["s"]["counter"], dtype=np.uint64)
         if seed.ndim != 1 or seed.shape[0] != 2 * (10 + 1):
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index bfc36fc..44797f1 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -287,6 +287,9 @@ cdef class DSFMT(BitGenerator):
             raise ValueError("State element buffered_uniforms must be a 1-d array "
                              "with {0} elements".format(DSFMT_N64))
         buffer_loc = value["buffer_loc"]
+        if not (0 <= idx <= DSFMT_N64) or not (0 <= buffer_loc <= DSFMT_N64):
+            raise ValueError("idx and buffer_loc must be in "
+                             "[0, {0}]".format(DSFMT_N64))
 
         for i in range(DSFMT_N_PLUS_1):
             for j in range(2):
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index 74269d0..5aee28f 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -228,4 +228,8 @@ cdef class HC128(BitGenerator):
             new_state.buffer[i] = buf_arr[i]
         new_state.hc_idx = state["hc_idx"]
         new_state.buffer_idx = state["buffer_idx"]
+        if not (0 <= new_state.hc_idx < 1024) or new_state.hc_idx % 16:
+            raise ValueError("hc_idx must be a multiple of 16 in [0, 1024)")
+        if not (0 <= new_state.buffer_idx <= 16):
+            raise ValueError("buffer_idx must be in [0, 16]")
         self.rng_state = new_state
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index 007eeaf..53e2c8e 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -313,4 +313,6 @@ cdef class MT19937(BitGenerator):
         for i in range(RK_STATE_LEN):
             new_state.key[i] = key[i]
         new_state.pos = value["state"]["pos"]
+        if not (0 <= new_state.pos <= RK_STATE_LEN):
+            raise ValueError("pos must be in [0, {0}]".format(RK_STATE_LEN))
         self.rng_state = new_state
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index bab1cc1..71acc96 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -169,6 +169,9 @@ cdef class MT64(BitGenerator):
         for i in range(312):
             new_state.mt[i] = key[i]
         new_state.mti = value["state"]["pos"]
+        # 313 marks a state that has not been initialized
+        if not (0 <= new_state.mti <= 313):
+            raise ValueError("pos must be in [0, 313]")
         new_state.has_uint32 = value["has_uint32"]
         new_state.uinteger = value["uinteger"]
         self.rng_state = new_state
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index 3d15468..6a1942b 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -390,6 +390,9 @@ cdef class Philox(BitGenerator):
         has_uint32 = value["has_uint32"]
         uinteger = value["uinteger"]
         buffer_pos = value["buffer_pos"]
+        if not (0 <= buffer_pos <= PHILOX_BUFFER_SIZE):
+            raise ValueError("buffer_pos must be in "
+                             "[0, {0}]".format(PHILOX_BUFFER_SIZE))
 
         self.rng_state.number = self.n = number
         self.rng_state.width = self.w = width
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index df54ee9..1dcf7b7 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -293,6 +293,9 @@ cdef class SFMT(BitGenerator):
         buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
                                             64,  "buffered_uint64")
         buffer_loc = value["buffer_loc"]
+        if not (0 <= idx <= 2 * SFMT_N64) or not (0 <= buffer_loc <= SFMT_N64):
+            raise ValueError("idx must be in [0, {0}] and buffer_loc in "
+                             "[0, {1}]".format(2 * SFMT_N64, SFMT_N64))
         has_uint32 = value["has_uint32"]
         uinteger = value["uinteger"]
 
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index ea0cefc..3b0c7d7 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -337,6 +337,11 @@ cdef class SPECK128(BitGenerator):
 
         new_state.rounds = state["rounds"]
         new_state.offset = state["offset"]
+        if not (0 < new_state.rounds <= SPECK_MAX_ROUNDS):
+            raise ValueError("rounds must be in [1, {0}]".format(SPECK_MAX_ROUNDS))
+        if not (0 <= new_state.offset <= 8 * SPECK_UNROLL) or new_state.offset % 8:
+            raise ValueError("offset must be a multiple of 8 in "
+                             "[0, {0}]".format(8 * SPECK_UNROLL))
         new_state.has_uint32 = value["has_uint32"]
         new_state.uinteger = value["uinteger"]
         self.rng_state[0] = new_state
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 59a3f56..df17793 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -375,6 +375,9 @@ cdef class ThreeFry(BitGenerator):
         has_uint32 = value["has_uint32"]
         uinteger = value["uinteger"]
         buffer_pos = value["buffer_pos"]
+        if not (0 <= buffer_pos <= THREEFRY_BUFFER_SIZE):
+            raise ValueError("buffer_pos must be in "
+                             "[0, {0}]".format(THREEFRY_BUFFER_SIZE))
 
         self.rng_state.number = self.n = number
         self.rng_state.width = self.w = width
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index 9a62d91..d87119a 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -267,6 +267,8 @@ cdef class Xorshift1024(BitGenerator):
         for i in range(16):
             new_state.s[i] = <uint64_t>state[i]
         new_state.p = value["state"]["p"]
+        if not (0 <= new_state.p < 16):
+            raise ValueError("p must be in [0, 16)")
         new_state.has_uint32 = value["has_uint32"]
         new_state.uinteger = value["uinteger"]
         self.rng_state = new_state
-- 
2.43.0


From 319e20b981b95a04e2fb44a6da61a82fa1b6f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 20/43] fix: rebuild the ctypes and cffi interfaces when the
 draw functions change

The interfaces are cached and hold copies of the function pointers. After a
state of another variant was set they kept drawing with the functions of the
old variant.
---
 randomgen/common.pxd       | 1 +
 randomgen/common.pyx       | 6 ++++++
 randomgen/jsf.pyx          | 1 +
 randomgen/pcg64.pyx        | 1 +
 randomgen/philox.pyx       | 1 +
 randomgen/romu.pyx         | 1 +
 randomgen/squares.pyx      | 1 +
 randomgen/threefry.pyx     | 1 +
 randomgen/tyche.pyx        | 1 +
 randomgen/xoroshiro128.pyx | 1 +
 10 files changed, 15 insertions(+)

diff --git a/randomgen/common.pxd b/randomgen/common.pxd
index 0d902a7..95de84a 100644
--- a/randomgen/common.pxd
+++ b/randomgen/common.pxd
@@ -18,6 +18,7 @@ cdef uint64_t MAXSIZE
 cdef class BitGenerator(_BitGenerator):
     cdef object mode
     cdef object _copy_seed(self)
+    cdef object _clear_interfaces(self)
 
 cdef object benchmark(bitgen_t *bitgen, object lock, Py_ssize_t cnt, object method)
 cdef object random_raw(bitgen_t *bitgen, object lock, object size, object output)
diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 98fe6de..ab53531 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -76,6 +76,12 @@ cdef class BitGenerator(_BitGenerator):
 
         return copy.deepcopy(self._seed_seq)
 
+    cdef _clear_interfaces(self):
+        # The ctypes and cffi interfaces hold copies of the function pointers in
+        # _bitgen and so must be rebuilt if these change
+        self._ctypes = None
+        self._cffi = None
+
     def _seed_with_seed_sequence(self, seed, **kwargs):
         if isinstance(seed, ISEED_SEQUENCES):
             self._seed_seq = seed
diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index 4e16e54..54be5cb 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -211,6 +211,7 @@ cdef class JSF(BitGenerator):
         self.seed(seed)
 
     cdef setup_generator(self, object p, object q, object r):
+        self._clear_interfaces()
         if self.size == 64:
             self._bitgen.next_uint64 = &jsf64_uint64
             self._bitgen.next_uint32 = &jsf64_uint32
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index ead0581..2d05b24 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -210,6 +210,7 @@ cdef class PCG64(BitGenerator):
         else:
             self.variant = "xsl-rr"
 
+        self._clear_interfaces()
         if not self.cheap_multiplier:
             self._bitgen.next_uint64 = &pcg64_uint64
             self._bitgen.next_uint32 = &pcg64_uint32
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index 6a1942b..c8662dd 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -193,6 +193,7 @@ cdef class Philox(BitGenerator):
 
     def _setup_generator(self):
         """Set the functions that will generate the values"""
+        self._clear_interfaces()
         if self.n == 4 and self.w == 64:
             self._bitgen.next_uint64 = &philox4x64_uint64
             self._bitgen.next_uint32 = &philox4x64_uint32
diff --git a/randomgen/romu.pyx b/randomgen/romu.pyx
index 4811fc7..27a9247 100644
--- a/randomgen/romu.pyx
+++ b/randomgen/romu.pyx
@@ -100,6 +100,7 @@ cdef class Romu(BitGenerator):
         self._setup_bitgen()
 
     cdef _setup_bitgen(self):
+        self._clear_interfaces()
         if self.variant == "quad":
             self._bitgen.next_uint64 = &romuquad_uint64
             self._bitgen.next_uint32 = &romuquad_uint32
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 0fcb68e..fc9e2cf 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -446,6 +446,7 @@ cdef class Squares(BitGenerator):
         self._setup_bitgen()
 
     cdef void _setup_bitgen(self):
+        self._clear_interfaces()
         if self._use64:
             self._bitgen.next_uint64 = &squares_uint64
             self._bitgen.next_uint32 = &squares_uint32
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index df17793..4b9720a 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -191,6 +191,7 @@ cdef class ThreeFry(BitGenerator):
 
     def _setup_generator(self):
         """Set the functions that will generate the values"""
+        self._clear_interfaces()
         if self.n == 4 and self.w == 64:
             self._bitgen.next_uint64 = &threefry4x64_uint64
             self._bitgen.next_uint32 = &threefry4x64_uint32
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index ffb2a9c..3d7a058 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -115,6 +115,7 @@ cdef class Tyche(BitGenerator):
         self._setup_bitgen()
 
     cdef void _setup_bitgen(self):
+        self._clear_interfaces()
         if self.original:
             self._bitgen.next_uint64 = &tyche_uint64
             self._bitgen.next_uint32 = &tyche_uint32
diff --git a/randomgen/xoroshiro128.pyx b/randomgen/xoroshiro128.pyx
index 323c8d5..b5829bd 100644
--- a/randomgen/xoroshiro128.pyx
+++ b/randomgen/xoroshiro128.pyx
@@ -136,6 +136,7 @@ cdef class Xoroshiro128(BitGenerator):
         self._bitgen.state = <void *>&self.rng_state
 
     cdef _set_generators(self):
+        self._clear_interfaces()
         if self._plusplus:
             self._bitgen.next_uint64 = &xoroshiro128plusplus_uint64
             self._bitgen.next_uint32 = &xoroshiro128plusplus_uint32
-- 
2.43.0


From 31f6988c206454b236e4546f9d3d881537cd1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 21/43] fix: SFC64.weyl_increments never selects a bit count
 outside the range

---
 randomgen/sfc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index 192a0c7..58fa85b 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -291,7 +291,7 @@ cdef class SFC64(BitGenerator):
         out = np.empty(n, dtype=np.uint64)
         out_arr = <uint64_t *>np.PyArray_DATA(out)
         for i in range(n):
-            val = <uint64_t>gen.integers(0, total, endpoint=True, dtype=np.uint64)
+            val = <uint64_t>gen.integers(0, total, dtype=np.uint64)
             nonzero_bits = 0
             for j in range(nbits):
                 if val < cum_count_arr[j] and nonzero_bits == 0:
-- 
2.43.0


From a97d6523e034e4122555083178f60177886eb98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 22/43] fix: SFC64 makes even Weyl increments odd as documented

---
 randomgen/sfc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index 58fa85b..da78e7f 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -151,7 +151,7 @@ cdef class SFC64(BitGenerator):
         state_arr = <np.uint64_t *>np.PyArray_DATA(state)
         w = self.w if self.w is not None else state[3]
         loc = 3 if self.w is not None else 4
-        k = self.k if self.k is not None else (<uint64_t>state[loc] | 0x1)
+        k = (self.k if self.k is not None else <uint64_t>state[loc]) | 0x1
         sfc_seed(&self.rng_state, state_arr, w, k)
         self._reset_state_variables()
 
-- 
2.43.0


From e1bdc813df4bad51e3fe487ef51e9db45b97bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 23/43] fix: Squares key generation does not read beyond its
 random words

---
 randomgen/squares.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index fc9e2cf..4bb8899 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -88,7 +88,7 @@ cdef class _SequenceSampler:
         self.bit_well = <uint64_t>self.random_well[self.index]
         self.bit_well_loc = 0
         self.index += 1
-        if self.index > self.randoms_drawm:
+        if self.index >= self.randoms_drawm:
             self.randoms_drawm *= 2
             self.random_well = self.seed_seq.generate_state(
                 self.randoms_drawm, dtype=np.uint64
-- 
2.43.0


From 403327ff529b5480a7b7163af9be5c96a8295959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 24/43] fix: Squares keys do not share their scratch space
 between threads

---
 randomgen/squares.pyx | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 4bb8899..094ee01 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -28,17 +28,11 @@ cdef class _TestSeninal:
 
 _test_sentinal = _TestSeninal()
 
-# Module level variables to save small allocations
+# The values shuffled by generate_key, which works on a copy
 cdef np.ndarray WORDS_ARR = np.arange(16, dtype=np.uint8)
 cdef uint8_t[::1] WORDS = WORDS_ARR
 
 
-cdef void _reset_words():
-    cdef int i
-    for i in range(16):
-        WORDS[i] = i
-
-
 def _get_words():
     return np.asarray(WORDS)
 
@@ -152,11 +146,10 @@ cdef uint64_t generate_key(_SequenceSampler seq_sampler):
     The core key generation implementation
     """
     cdef uint64_t out, i
-    cdef uint8_t[::1] tmp = WORDS
+    cdef uint8_t[::1] tmp = WORDS.copy()
     cdef uint8_t last_value, next_value, old
 
     out = 0
-    _reset_words()
     seq_sampler.shuffle(tmp)
     if not (tmp[0] & 0x1):
         old = tmp[0]
-- 
2.43.0


From f13fbe9f9f3fb1fb82f7caa93f83d18e0d34b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 25/43] fix: Romu's trio variant never starts from a state of
 zeros

---
 randomgen/romu.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/romu.pyx b/randomgen/romu.pyx
index 27a9247..d182cd8 100644
--- a/randomgen/romu.pyx
+++ b/randomgen/romu.pyx
@@ -129,7 +129,7 @@ cdef class Romu(BitGenerator):
         self._setup_bitgen()
 
         state = self._get_seed_seq().generate_state(4, np.uint64)
-        if (state == 0).all():
+        if (state[1 - quad:] == 0).all():
             # Ensure at least one non-zero, exceedingly unlikely
             state[3] |= np.uint64(0x1)
         romu_seed(&self.rng_state, state[0], state[1], state[2], state[3], quad)
-- 
2.43.0


From 52fc8018ded11ddcd9745081d41ab3df1db7b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 26/43] fix: LXM does not hang on a seed sequence that delivers
 zeros

---
 randomgen/lxm.pyx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index 3702014..2512011 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -145,13 +145,14 @@ cdef class LXM(BitGenerator):
         cdef int i
         cdef uint64_t bits = 0
 
-        # Protect against negligible prob of all 0 in Xorshift
-        while bits == 0:
-            state = self._get_seed_seq().generate_state(5, np.uint64)
-            for i in range(4):
-                self.rng_state.x[i] = state[i]
-                bits |= <uint64_t>state[i]
-            self.rng_state.lcg_state = state[4]
+        state = self._get_seed_seq().generate_state(5, np.uint64)
+        for i in range(4):
+            self.rng_state.x[i] = state[i]
+            bits |= <uint64_t>state[i]
+        if bits == 0:
+            # Protect against negligible prob of all 0 in Xorshift
+            self.rng_state.x[3] = 1
+        self.rng_state.lcg_state = state[4]
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From 1f23124de4f44170e55fe5a1bad52191e9201fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:19 +0000
Subject: [PATCH 27/43] fix: wishart and multivariate_normal use the factor A
 with A @ A.T = cov

_factorize returned the transpose of the documented factor, which wishart
used as if it was the factor: the mean of its variates was not df * scale.
The pivots of the reduced-rank Cholesky factor were ignored.
---
 randomgen/generator.pyx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index cf50274..e52ca84 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -64,6 +64,7 @@ cdef object broadcast_shape(tuple x, tuple y, bint strict):
 
 
 cdef _factorize(cov, meth, check_valid, tol, rank):
+    # Returns A where A @ A.T = cov
     if meth == "svd":
         from numpy.linalg import svd
 
@@ -72,7 +73,7 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
             locs = np.argsort(s)
             s[locs[:s.shape[0]-rank]] = 0.0
         psd = np.allclose(np.dot(vh.T * s, vh), cov, rtol=tol, atol=tol)
-        _factor = (u * np.sqrt(s)).T
+        _factor = u * np.sqrt(s)
     elif meth == "factor":
         return cov
     elif meth == "eigh":
@@ -85,12 +86,12 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
             locs = np.argsort(s)
             s[locs[:s.shape[0]-rank]] = 0.0
         psd = not np.any(s < -tol)
-        _factor = (u * np.sqrt(abs(s))).T
+        _factor = u * np.sqrt(abs(s))
     else:
         if rank == cov.shape[0]:
             from numpy.linalg import cholesky
 
-            _factor = cholesky(cov).T
+            _factor = cholesky(cov)
             psd = True
         else:
             try:
@@ -102,8 +103,12 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
                 )
 
             func = get_lapack_funcs("pstrf")
-            _factor, _, rank_c, _ = func(cov)
-            _factor = np.triu(_factor)
+            upper, piv, rank_c, _ = func(cov)
+            upper = np.triu(upper)
+            upper[min(rank, rank_c):] = 0.0
+            # pstrf pivots, so that cov[piv][:, piv] = upper.T @ upper
+            _factor = np.empty_like(upper)
+            _factor[piv - 1] = upper.T
             psd = rank_c >= rank
 
     if not psd and check_valid != "ignore":
@@ -556,7 +561,8 @@ cdef class ExtendedGenerator:
             out_shape = tuple(final_size)
 
         out = self._generator.standard_normal(out_shape + (1, n,))
-        prod = np.matmul(out, _factors)
+        # Each row is (A @ z).T
+        prod = np.matmul(out, np.swapaxes(_factors, -1, -2))
         final = mean + np.squeeze(prod, axis=prod.ndim - 2)
         if drop_dims and final.shape[0] == 1:
             final = final.reshape(final.shape[1:])
-- 
2.43.0


From 708e0173d8225948290575307edbb6dc49580902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 28/43] fix: wishart takes the scale as float64 values whatever
 its type

With array df or scale the factors were stored in the type of scale (integer
scales were truncated), a list of lists was refused, as was a list as size.
---
 randomgen/generator.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index e52ca84..1d56100 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -957,6 +957,7 @@ cdef class ExtendedGenerator:
         else:
             if isinstance(size, (int, np.integer)):
                 size = (int(size),)
+            size = tuple(size)
             if len(size) < len(it_shape) or size[len(size)-len(it_shape):] != it_shape:
                 err_msg = (
 f"""size {size} is not compatible with the broadcast shape of `df` and `scale`
@@ -973,9 +974,11 @@ and the trailing dimensions must match exactly so that
         out_shape = out.shape
         out = out.reshape((-1, np.prod(it_shape), dim, dim))
         temp_shape = np.shape(out[..., 0, :, :])
-        _factors = np.empty_like(scale)
-        for loc in np.ndindex(*scale.shape[:len(scale.shape) - 2]):
-            _factors[loc] = _factorize(scale[loc], method, check_valid, tol, rank_val)
+        _factors = np.empty_like(shape_arr)
+        for loc in np.ndindex(*shape_size):
+            _factors[loc] = _factorize(
+                shape_arr[loc], method, check_valid, tol, rank_val
+            )
         _factors = _factors.reshape((-1, dim, dim))
 
         large_values = np.empty((block_size, dim, dim), dtype=np.float64)
-- 
2.43.0


From 30052e7db426c74e69afaa5389754d1e4b3c5b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 29/43] fix: multivariate_complex_normal indexes gamma and
 relation with several leading dimensions

---
 randomgen/generator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 1d56100..a6f4bc5 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -1220,16 +1220,16 @@ and the trailing dimensions must match exactly so that
 
         if gdim == 2:
             gidx = np.array([0])
-            garr = np.reshape(garr, (1,) + np.shape(garr))
         else:
             _shape = np.shape(garr)[: gdim - 2]
             gidx = np.arange(np.prod(_shape)).reshape(_shape)
         if rdim == 2:
             ridx = np.array([0])
-            rarr = np.reshape(rarr, (1,) + np.shape(rarr))
         else:
             _shape = np.shape(rarr)[: rdim - 2]
             ridx = np.arange(np.prod(_shape)).reshape(_shape)
+        garr = np.reshape(garr, (-1, dim, dim))
+        rarr = np.reshape(rarr, (-1, dim, dim))
 
         factors = np.empty(common_shape + (2 * dim, 2 * dim)).reshape(
             (-1, 2 * dim, 2 * dim)
-- 
2.43.0


From 44c742f348e89b0a05720556b8f9f401b7963ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:42 +0000
Subject: [PATCH 30/43] fix: multivariate_normal returns the requested size
 when it starts with 1 or 0

A leading 1 of size was dropped, a size of 0 gave one value, and size=() gave
the rows of a batch of means the same normals.
---
 randomgen/generator.pyx | 43 +++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index a6f4bc5..aee45f0 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -543,28 +543,37 @@ cdef class ExtendedGenerator:
         if size is not None:
             if isinstance(size, (int, np.integer)):
                 size = (size,)
-            error = len(size) < len(out_shape)
-            final_size = list(size[: -len(out_shape)])
-            for s, os in zip(size[-len(out_shape) :], out_shape):
-                if error or not (s == 1 or os == 1 or s == os):
-                    raise ValueError(
-                        f"The desired out size {size} is not compatible with "
-                        f"the broadcast size of mean and cov {out_shape}. "
-                        f"The desired size must have the same number (or "
-                        f"more) dimensions ({len(size)}) as the broadcast "
-                        f"size or mean and covariance (len({out_shape}). "
-                        f"The final {len(out_shape)} elements of size must be "
-                        f"either 1 or the same as the corresponding element "
-                        f"of the broadcast size."
-                    )
-                final_size.append(max(s, os))
-            out_shape = tuple(final_size)
+            size = tuple(size)
+            # A single sample has no leading dimensions
+            drop_dims = drop_dims and not size
+            if not drop_dims and len(size) < len(out_shape):
+                compatible = False
+            else:
+                compatible = all(
+                    s == 1 or os == 1 or s == os
+                    for s, os in zip(size[-len(out_shape) :], out_shape)
+                )
+            if not compatible:
+                raise ValueError(
+                    f"The desired out size {size} is not compatible with "
+                    f"the broadcast size of mean and cov {out_shape}. "
+                    f"The desired size must have the same number (or "
+                    f"more) dimensions ({len(size)}) as the broadcast "
+                    f"size or mean and covariance (len({out_shape}). "
+                    f"The final {len(out_shape)} elements of size must be "
+                    f"either 1 or the same as the corresponding element "
+                    f"of the broadcast size."
+                )
+            out_shape = size[: -len(out_shape)] + tuple(
+                s if os == 1 else os
+                for s, os in zip(size[-len(out_shape) :], out_shape)
+            )
 
         out = self._generator.standard_normal(out_shape + (1, n,))
         # Each row is (A @ z).T
         prod = np.matmul(out, np.swapaxes(_factors, -1, -2))
         final = mean + np.squeeze(prod, axis=prod.ndim - 2)
-        if drop_dims and final.shape[0] == 1:
+        if drop_dims:
             final = final.reshape(final.shape[1:])
         return final
 
-- 
2.43.0


From 61bcceddd41bac6a73240f01c6ef61b5e405cbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:44 +0000
Subject: [PATCH 31/43] fix: complex_normal broadcasts gamma against relation
 (an array gamma with a scalar relation was refused)

---
 randomgen/generator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index aee45f0..52f3ff6 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -711,8 +711,8 @@ cdef class ExtendedGenerator:
         if np.any(np.not_equal(np.imag(ogamma), 0)):
             raise ValueError("Im(gamma) != 0")
 
-        cov = 0.5 * np.imag(orelation)
-        rho = np.zeros_like(cov)
+        cov = np.broadcast_to(0.5 * np.imag(orelation), np.shape(v_real))
+        rho = np.zeros(np.shape(v_real))
         idx = (v_real.flat > 0) & (v_imag.flat > 0)
         rho.flat[idx] = cov.flat[idx] / np.sqrt(v_real.flat[idx] * v_imag.flat[idx])
         if np.any(cov.flat[~idx] != 0) or np.any(np.abs(rho) > 1):
-- 
2.43.0


From 57d359bd285e7b512f752119e78dcab6a4695c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:44 +0000
Subject: [PATCH 32/43] fix: complex_normal refuses scalars with Im(relation)
 and no variance, as it does arrays

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 52f3ff6..a7e2696 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -671,6 +671,8 @@ cdef class ExtendedGenerator:
             f_rho = 0.0
             if fvar_i > 0 and fvar_r > 0:
                 f_rho = frelation_i / sqrt(fvar_i * fvar_r)
+            elif frelation_i != 0:
+                raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
             if f_rho > 1.0 or f_rho < -1.0:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
-- 
2.43.0


From d18ad095cd311039dcdfb09e06b2ea71ee4dffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:44 +0000
Subject: [PATCH 33/43] fix: complex_normal refuses a size that its parameters
 do not broadcast to

---
 randomgen/generator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index a7e2696..015502d 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -730,6 +730,11 @@ cdef class ExtendedGenerator:
         n = np.PyArray_SIZE(randoms)
 
         it = np.PyArray_MultiIterNew5(randoms, oloc, v_real, v_imag, rho)
+        if it.shape != np.shape(randoms):
+            raise ValueError(
+                f"Output size {np.shape(randoms)} is not compatible with the "
+                f"broadcast dimensions of loc, gamma and relation."
+            )
         with self.lock, nogil:
             n2 = 2 * n  # Avoid compiler noise for cast
             for i in range(n2):
-- 
2.43.0


From a2c859f83fc1c3c6e1890f36c4570c60fd896491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:44 +0000
Subject: [PATCH 34/43] fix: long double fills count with npy_intp

---
 randomgen/src/distributions/rg-distributions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/src/distributions/rg-distributions.c b/randomgen/src/distributions/rg-distributions.c
index f021acd..906fb05 100644
--- a/randomgen/src/distributions/rg-distributions.c
+++ b/randomgen/src/distributions/rg-distributions.c
@@ -52,7 +52,7 @@ long double random_long_double(bitgen_t *bitgen_state){
 }
 
 void random_long_double_fill(bitgen_t *bitgen_state, npy_intp cnt, long double *out){
-   for (int i=0; i < cnt; i++){
+   for (npy_intp i=0; i < cnt; i++){
       out[i] = rg_next_long_double(bitgen_state);
    }
 }
-- 
2.43.0


From bf89acb41560d8100394256e8189493a02e7add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 35/43] fix: complex_normal keeps the imaginary part of scalars
 that are not Python complex

np.complex64 scalars lost it, 0-d complex arrays were refused.
---
 randomgen/generator.pyx | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 015502d..e221314 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -11,11 +11,7 @@ cimport numpy as np
 
 from randomgen.pcg64 import PCG64
 
-from cpython cimport (
-    PyComplex_FromDoubles,
-    PyComplex_ImagAsDouble,
-    PyComplex_RealAsDouble,
-)
+from cpython cimport PyComplex_FromDoubles
 from cpython.pycapsule cimport PyCapsule_GetPointer, PyCapsule_IsValid
 from numpy.random cimport bitgen_t
 from numpy.random.c_distributions cimport (
@@ -653,12 +649,13 @@ cdef class ExtendedGenerator:
         if (np.PyArray_NDIM(ogamma) ==
                 np.PyArray_NDIM(orelation) ==
                 np.PyArray_NDIM(oloc) == 0):
-            floc_r = PyComplex_RealAsDouble(loc)
-            floc_i = PyComplex_ImagAsDouble(loc)
-            fgamma_r = PyComplex_RealAsDouble(gamma)
-            fgamma_i = PyComplex_ImagAsDouble(gamma)
-            frelation_r = PyComplex_RealAsDouble(relation)
-            frelation_i = 0.5 * PyComplex_ImagAsDouble(relation)
+            # Scalars may be of any complex type, e.g., np.complex64 or 0-d arrays
+            floc_r = (<double*>np.PyArray_DATA(oloc))[0]
+            floc_i = (<double*>np.PyArray_DATA(oloc))[1]
+            fgamma_r = (<double*>np.PyArray_DATA(ogamma))[0]
+            fgamma_i = (<double*>np.PyArray_DATA(ogamma))[1]
+            frelation_r = (<double*>np.PyArray_DATA(orelation))[0]
+            frelation_i = 0.5 * (<double*>np.PyArray_DATA(orelation))[1]
 
             fvar_r = 0.5 * (fgamma_r + frelation_r)
             fvar_i = 0.5 * (fgamma_r - frelation_r)
-- 
2.43.0


From bf0f2eeaf18a579a75b68d2a21b7f46edb95a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:23 +0000
Subject: [PATCH 36/43] fix: keep all bits of keys and counters passed as lists

np.array turns a list of integers on both sides of 2**63 into float64, so
object_to_int silently rounded the words of keys and counters given as
lists: different keys gave the same stream.
---
 randomgen/common.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index ab53531..1d3213c 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -371,10 +371,15 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
                             " {1}".format(name, all_sz))
     else:
         dtype = np.uint64 if default_bits==64 else np.uint32
-        val = np.array(val)
+        orig = val
+        val = np.array(orig)
         if not np.issubdtype(val.dtype, np.number):
             raise ValueError("{0} contains non-numeric values or values "
                              "out-of-range".format(name))
+        if np.issubdtype(val.dtype, np.floating):
+            # NumPy converts integers on both sides of 2**63 to float64, which
+            # would round them
+            val = np.array(orig, dtype=object)
         if not np.all((val // 1) == val):
             raise TypeError("{0} contains floating point values".format(name))
         max_val = np.iinfo(dtype).max
-- 
2.43.0


From 58b3f74f7e9e640acc91d4b28aa556deb76a179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 37/43] fix: keep all bits of the elements of lists passed to
 seed_by_array

np.asarray turns a list of integers on both sides of 2**63 into float64, so
seed_by_array silently rounded them: different seeds gave the same state.
---
 randomgen/entropy.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index a7beea0..826a10e 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -94,7 +94,11 @@ def seed_by_array(object seed, Py_ssize_t n):
         seed_array = np.array([int_seed], dtype=np.uint64)
     else:
         err_msg = "Seed values must be integers between 0 and 2**64 - 1"
-        obj = np.asarray(seed).astype(object)
+        if not isinstance(seed, np.ndarray) and np.issubdtype(arr.dtype, np.floating):
+            # NumPy converts integers on both sides of 2**63 to float64, which
+            # would round them
+            arr = np.array(seed, dtype=object)
+        obj = arr.astype(object)
         if obj.ndim != 1:
             raise ValueError("Array-valued seeds must be 1-dimensional")
         if not all((np.isscalar(v) and np.isreal(v)) for v in obj):
-- 
2.43.0


From 5bbf8905f2f47e2f1815f881c93380e48e8a0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 38/43] fix: SeedSequence accepts entropy and spawn keys of
 every integer type

Signed NumPy integers narrower than 64 bits raised OverflowError.
---
 randomgen/_seed_sequence.pyx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index e5cba28..8ad58fa 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -72,9 +72,8 @@ def _int_to_uint32_array(n):
         raise ValueError("expected non-negative integer")
     if n == 0:
         arr.append(np.uint32(n))
-    if isinstance(n, np.unsignedinteger):
-        # Cannot do n & MASK32, convert to python int
-        n = int(n)
+    # NumPy integers may not support n & MASK32, convert to python int
+    n = int(n)
     while n > 0:
         arr.append(np.uint32(n & MASK32))
         n //= (2**32)
-- 
2.43.0


From b9b5b2bc37fe4e005a2d497ff6703cf53ded0265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 39/43] fix: SeedSequence.spawn refuses a negative number of
 children

It moved the count of children back, so that later calls handed out children
that had been handed out before.
---
 randomgen/_seed_sequence.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index 8ad58fa..3f02fe4 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -463,6 +463,8 @@ cdef class SeedSequence(object):
         """
         cdef int i
 
+        if n_children < 0:
+            raise ValueError("n_children must be non-negative")
         seqs = []
         for i in range(self.n_children_spawned,
                        self.n_children_spawned + n_children):
-- 
2.43.0


From dae40a7d917ca6929b74517874007479153d9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:08 +0000
Subject: [PATCH 40/43] fix: seed converts key and counter before it changes
 the generator

AESCounter, Philox, SPECK128 and ThreeFry set the key first, so that running
out of memory while the counter was converted left the new key with the old
counter.
---
 randomgen/aes.pyx      | 4 ++--
 randomgen/philox.pyx   | 4 ++--
 randomgen/speck128.pyx | 4 ++--
 randomgen/threefry.pyx | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 0a7b34b..28bd1e6 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -235,14 +235,14 @@ cdef class AESCounter(BitGenerator):
         key = object_to_int(key, 128, "key")
         counter = object_to_int(counter, 128, "counter")
         _seed = int_to_array(key, "key", 128, 64)
-        # TODO: We have swapped here, but should we always use native in Python?
-        aesctr_seed(self.rng_state, <uint64_t*>np.PyArray_DATA(_seed))
         _counter = np.empty(8, dtype=np.uint64)
         counter = 0 if counter is None else counter
         for i in range(4):
             _counter[2*i:2*i+2] = int_to_array(
                 (counter + i) % (2**128), "counter", 128, 64
             )
+        # TODO: We have swapped here, but should we always use native in Python?
+        aesctr_seed(self.rng_state, <uint64_t*>np.PyArray_DATA(_seed))
         aesctr_set_counter(self.rng_state,
                            <uint64_t*>np.PyArray_DATA(_counter))
         self._reset_state_variables()
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index c8662dd..65cf743 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -296,6 +296,8 @@ cdef class Philox(BitGenerator):
         _seed = int_to_array(key, "key", self.n // 2 * self.w, self.w)
         dtype = np.uint64 if self.w==64 else np.uint32
         _seed = view_little_endian(_seed, dtype)
+        counter = 0 if counter is None else counter
+        counter = int_to_array(counter, "counter", self.n * self.w, self.w)
         for i in range(self.n // 2):
             if self.w == 32 and self.n == 2:
                 self.rng_state.state.state2x32.key.v[i] = _seed[i]
@@ -306,8 +308,6 @@ cdef class Philox(BitGenerator):
             else:  # self.w == 64 and self.n == 4:
                 self.rng_state.state.state4x64.key.v[i] = _seed[i]
 
-        counter = 0 if counter is None else counter
-        counter = int_to_array(counter, "counter", self.n * self.w, self.w)
         for i in range(self.n):
             if self.w == 32 and self.n == 2:
                 self.rng_state.state.state2x32.ctr.v[i] = counter[i]
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 3b0c7d7..2c9c467 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -223,10 +223,10 @@ cdef class SPECK128(BitGenerator):
         key = object_to_int(key, 256, "key")
         counter = object_to_int(counter, 128, "counter")
         _seed = int_to_array(key, "key", 256, 64)
-
-        speck_seed(self.rng_state, <uint64_t *>np.PyArray_DATA(_seed))
         counter = 0 if counter is None else counter
         _counter = int_to_array(counter, "counter", 128, 64)
+
+        speck_seed(self.rng_state, <uint64_t *>np.PyArray_DATA(_seed))
         speck_set_counter(self.rng_state,
                           <uint64_t *>np.PyArray_DATA(_counter))
         self._reset_state_variables()
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 4b9720a..1b124fa 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -286,6 +286,8 @@ cdef class ThreeFry(BitGenerator):
         _seed = int_to_array(key, "key", nxw, self.w)
         dtype = np.uint64 if self.w==64 else np.uint32
         _seed = view_little_endian(_seed, dtype)
+        counter = 0 if counter is None else counter
+        counter = int_to_array(counter, "counter", nxw, self.w)
         for i in range(self.n):
             if self.w == 32 and self.n == 2:
                 self.rng_state.state.state2x32.key.v[i] = _seed[i]
@@ -296,8 +298,6 @@ cdef class ThreeFry(BitGenerator):
             else:  # self.w == 64 and self.n == 4:
                 self.rng_state.state.state4x64.key.v[i] = _seed[i]
 
-        counter = 0 if counter is None else counter
-        counter = int_to_array(counter, "counter", nxw, self.w)
         for i in range(self.n):
             if self.w == 32 and self.n == 2:
                 self.rng_state.state.state2x32.ctr.v[i] = counter[i]
-- 
2.43.0


From 36873fe5bb230bb6b10f7802fe543f8c33d60325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:49 +0000
Subject: [PATCH 41/43] fix: a rejected seed leaves the seed sequence as it was

seed() replaced the seed sequence before it looked at counter, inc or idx, so that
a call that was refused changed the children spawned later.
---
 randomgen/common.pyx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 1d3213c..8bccab6 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -83,14 +83,20 @@ cdef class BitGenerator(_BitGenerator):
         self._cffi = None
 
     def _seed_with_seed_sequence(self, seed, **kwargs):
+        old = self._seed_seq
         if isinstance(seed, ISEED_SEQUENCES):
             self._seed_seq = seed
         else:
             self._seed_seq = SeedSequence(seed)
-        if self.mode == "sequence":
-            self._seed_from_seq(**kwargs)
-        else:  # numpy
-            self._seed_from_seq_numpy_compat(**kwargs)
+        try:
+            if self.mode == "sequence":
+                self._seed_from_seq(**kwargs)
+            else:  # numpy
+                self._seed_from_seq_numpy_compat(**kwargs)
+        except BaseException:
+            # A rejected seed must not change the children spawned later
+            self._seed_seq = old
+            raise
 
     @property
     def state(self):
-- 
2.43.0


From f042f8d8a24ed87e2e89e4f7882d47cf2b4dfa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:27 +0000
Subject: [PATCH 42/43] fix: an advance by whole periods resets the buffered
 half word

---
 randomgen/aes.pyx      | 9 +++++----
 randomgen/speck128.pyx | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 28bd1e6..6fda894 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -410,12 +410,13 @@ cdef class AESCounter(BitGenerator):
         Advancing the RNG state resets any pre-computed random numbers.
         This is required to ensure exact reproducibility.
         """
-        delta = wrap_int(delta, 129)
         if delta == 0:
             return self
-
-        step = int_to_array(delta, "delta", 64*3, 64)
-        aesctr_advance(self.rng_state, <uint64_t *>np.PyArray_DATA(step))
+        delta = wrap_int(delta, 129)
+        # An advance by whole periods does not move, but still resets
+        if delta != 0:
+            step = int_to_array(delta, "delta", 64*3, 64)
+            aesctr_advance(self.rng_state, <uint64_t *>np.PyArray_DATA(step))
         self.rng_state.has_uint32 = 0
         self.rng_state.uinteger = 0
         return self
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 2c9c467..f13d553 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -443,12 +443,13 @@ cdef class SPECK128(BitGenerator):
         Advancing the RNG state resets any pre-computed random numbers.
         This is required to ensure exact reproducibility.
         """
-        delta = wrap_int(delta, 129)
         if delta == 0:
             return self
-
-        step = int_to_array(delta, "delta", 64*3, 64)
-        speck_advance(self.rng_state, <uint64_t *>np.PyArray_DATA(step))
+        delta = wrap_int(delta, 129)
+        # An advance by whole periods does not move, but still resets
+        if delta != 0:
+            step = int_to_array(delta, "delta", 64*3, 64)
+            speck_advance(self.rng_state, <uint64_t *>np.PyArray_DATA(step))
         self.rng_state.has_uint32 = 0
         self.rng_state.uinteger = 0
         return self
-- 
2.43.0


From fba298504322ba22c4b2f5a828f84b15dcb2824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:03 +0000
Subject: [PATCH 43/43] fix: an ExtendedGenerator over any bit generator can be
 copied and pickled

The bit generator was looked up by name among randomgen's own, so that a
generator built on NumPy's SFC64 or on a subclass could not be restored, and
those sharing a name came back as another class.
---
 randomgen/_pickle.py    | 9 ++++++---
 randomgen/generator.pyx | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/randomgen/_pickle.py b/randomgen/_pickle.py
index 6bd5ed6..b5d3be0 100644
--- a/randomgen/_pickle.py
+++ b/randomgen/_pickle.py
@@ -84,21 +84,24 @@ def _decode(name: str | bytes) -> str:
 
 
 def __extended_generator_ctor(
-    bit_generator_name: str | bytes = "MT19937",
+    bit_generator_name: str | bytes | BitGenerator = "MT19937",
 ) -> ExtendedGenerator:
     """
     Pickling helper function that returns a Generator object
 
     Parameters
     ----------
-    bit_generator_name: str
-        String containing the core BitGenerator
+    bit_generator_name: {str, BitGenerator}
+        String containing the core BitGenerator, or the bit generator
+        to use if it is not one of randomgen's own
 
     Returns
     -------
     rg: Generator
         Generator using the named core BitGenerator
     """
+    if not isinstance(bit_generator_name, (str, bytes)):
+        return ExtendedGenerator(bit_generator_name)
     bit_generator_name = _decode(bit_generator_name)
     assert isinstance(bit_generator_name, str)
     bit_generator = _get_bitgenerator(bit_generator_name)
diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index e221314..9b05c25 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -1,5 +1,6 @@
 #!python
 # cython: wraparound=False, nonecheck=False, boundscheck=False, cdivision=True
+import copy
 import warnings
 
 from libc.math cimport sqrt
@@ -206,7 +207,10 @@ cdef class ExtendedGenerator:
         self._set_bitgen()
 
     def __reduce__(self):
-        from randomgen._pickle import __extended_generator_ctor
+        from randomgen._pickle import BitGenerators, __extended_generator_ctor
+        if type(self._bit_generator) not in BitGenerators.values():
+            # Not one of randomgen's own, and so cannot be found by name
+            return __extended_generator_ctor, (copy.copy(self._bit_generator),)
         return (__extended_generator_ctor, (self.bit_generator.state["bit_generator"],),
                 self.bit_generator.state)
 
-- 
2.43.0

