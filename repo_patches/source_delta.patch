From fb8e0f4409f1ec8507bb84593c2818fb079e9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 01/69] fix: TimeConvolve ignored all but the first partition
 of kernels longer than a block

The frequency domain delay line was never advanced: every input spectrum
overwrote slot 0.
---
 acoular/tprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 014f751..9fc9ec9 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -2083,8 +2083,10 @@ class TimeConvolve(TimeOut):
 
 @nb.jit(nopython=True, cache=True)
 def _append_to_fdl(fdl, idx, numblocks_kernel, buff):  # pragma: no cover
+    # shift the delay line, so that fdl[i] holds the spectrum of the block i blocks ago
+    for i in range(numblocks_kernel - 1, 0, -1):
+        fdl[i] = fdl[i - 1]
     fdl[idx] = buff
-    idx = int(idx + 1 % numblocks_kernel)
 
 
 @nb.jit(nopython=True, cache=True)
-- 
2.43.0


From 4a3d35bce6ed2fac0f014cc7874f0ee980c890d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 02/69] fix: TimeConvolve dropped the final block when the
 output length is a multiple of the block size

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 9fc9ec9..0144bef 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -2036,7 +2036,7 @@ class TimeConvolve(TimeOut):
         numblocks_kernel = int(ceil(L / num))  # number of kernel blocks
         Q = int(ceil(M / num))  # number of signal blocks
         R = int(ceil((L + M - 1) / num))  # number of output blocks
-        last_size = (L + M - 1) % num  # size of final block
+        last_size = (L + M - 1) % num or num  # size of final block
 
         idx = 0
         fdl = zeros([numblocks_kernel, num + 1, N], dtype='complex128')
-- 
2.43.0


From c410a885804776fb9c9ef4d0c0d19c436f93e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 03/69] fix: TimeConvolve with a single kernel left all
 channels but the first silent

---
 acoular/tprocess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 0144bef..5058b1c 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -2091,12 +2091,13 @@ def _append_to_fdl(fdl, idx, numblocks_kernel, buff):  # pragma: no cover
 
 @nb.jit(nopython=True, cache=True)
 def _spectral_sum(out, fdl, kb):  # pragma: no cover
-    P, B, N = kb.shape
+    P, B, N = fdl.shape
+    K = kb.shape[2]  # number of kernels, either 1 or N
     for n in range(N):
         for b in range(B):
             out[b, n] = 0
             for i in range(P):
-                out[b, n] += fdl[i, b, n] * kb[i, b, n]
+                out[b, n] += fdl[i, b, n] * kb[i, b, n % K]
 
     return out
 
-- 
2.43.0


From 91f232fdd58cc8e03994c2992d4d157f392e0c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 04/69] fix: Average announced a fractional number of samples

Only complete averages are delivered, so the number is the integer quotient.
---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 856c30a..efce8a4 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -147,7 +147,7 @@ class Average(InOut):
     @cached_property
     def _get_num_samples(self):
         if self.source:
-            return self.source.num_samples / self.num_per_average
+            return self.source.num_samples // self.num_per_average
         return None
 
     def result(self, num):
-- 
2.43.0


From 5cb87841e59ca3b0f4fd9258d59de4544548e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 05/69] fix: filter banks failed on a final block shorter than
 the block size

The output buffer had the requested block size, so that a short last block
raised an error (or, for one sample, was repeated to a full block).
---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 5058b1c..db3f275 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1715,8 +1715,8 @@ class FilterBank(TimeOut):
         snumch = self.source.num_channels
         sos = self.sos
         zi = [zeros((sos[0].shape[0], 2, snumch)) for _ in range(numbands)]
-        res = zeros((num, self.num_channels), dtype='float')
         for block in self.source.result(num):
+            res = zeros((block.shape[0], self.num_channels), dtype='float')
             for i in range(numbands):
                 res[:, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
             yield res
-- 
2.43.0


From 620f112533934570d5dd0677995ce28e8c19a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 06/69] fix: SamplesBuffer failed when its length equals the
 size of the source blocks

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index efce8a4..8b7e4f9 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -832,7 +832,7 @@ class SamplesBuffer(InOut):
 
     def _write_to_buffer(self, data):
         ns = data.shape[0]
-        self._buffer[0 : (self.length - ns)] = self._buffer[-(self.length - ns) :]
+        self._buffer[0 : (self.length - ns)] = self._buffer[ns:]
         self._buffer[-ns:, :] = data.astype(self.dtype)
         self._index -= ns
 
-- 
2.43.0


From 36c9b9a4c48817ab3f06ca984cbed78550088394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 07/69] fix: SampleSplitter ignored overflow of buffers with an
 individual size

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 8b7e4f9..ed57756 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -525,7 +525,7 @@ class SampleSplitter(InOut):
 
     def _inspect_buffer_levels(self, inspect_objs):
         for obj in inspect_objs:
-            if len(self.block_buffer[obj]) == self.buffer_size:
+            if len(self.block_buffer[obj]) == self.block_buffer[obj].maxlen:
                 if self.buffer_overflow_treatment[obj] == 'error':
                     self._buffer_overflow = True
                 elif self.buffer_overflow_treatment[obj] == 'warning':
-- 
2.43.0


From 8ad776027070cc6acbe4c78670e46929c5f0afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 08/69] fix: SampleSplitter failed to resize the buffers of
 registered objects

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index ed57756..871fb27 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -544,7 +544,7 @@ class SampleSplitter(InOut):
 
     @on_trait_change('buffer_size')
     def _change_buffer_size(self):  #
-        for obj in self.block_buffer:
+        for obj in list(self.block_buffer):
             self._remove_block_buffer(obj)
             self._create_block_buffer(obj)
 
-- 
2.43.0


From 788e39ecb022c48525e53776990fa0d5f264efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 09/69] fix: SampleSplitter reported a buffer overflow at the
 end of the stream although no block was lost

---
 acoular/process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 871fb27..f781e86 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -538,8 +538,10 @@ class SampleSplitter(InOut):
         self._source_generator = LockedGenerator(self.source.result(num))
         self._source_generator_exist = True  # indicates full generator
 
-    def _fill_block_buffers(self):
+    def _fill_block_buffers(self, inspect_objs):
         next_block = next(self._source_generator)
+        # a full buffer overflows only if there is a further block to store
+        self._inspect_buffer_levels(inspect_objs)
         [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
@@ -664,9 +666,8 @@ class SampleSplitter(InOut):
             if self.block_buffer[calling_obj]:
                 yield self.block_buffer[calling_obj].pop()
             else:
-                self._inspect_buffer_levels(objs_to_inspect)
                 try:
-                    self._fill_block_buffers()
+                    self._fill_block_buffers(objs_to_inspect)
                 except StopIteration:
                     self._source_generator_exist = False
                     return
-- 
2.43.0


From e04d936b7563e104d7020fd62e60b19971633973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 10/69] fix: SampleSplitter lost or reordered blocks when its
 consumers run in different threads

---
 acoular/process.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index f781e86..815e708 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -496,6 +496,9 @@ class SampleSplitter(InOut):
     # Helper Trait holds source generator
     _source_generator = Instance(LockedGenerator)
 
+    # serializes the access to the block buffers and to the source
+    _lock = Any(factory=lambda: threading.RLock(), transient=True)
+
     def _create_block_buffer(self, obj, buffer_size=None):
         if buffer_size is None:
             buffer_size = self.buffer_size if isinstance(self.buffer_size, int) else self.buffer_size[obj]
@@ -659,18 +662,21 @@ class SampleSplitter(InOut):
         self._assert_obj_registered(calling_obj)
         objs_to_inspect = self._get_objs_to_inspect()
 
-        if not self._source_generator_exist:
-            self._create_source_generator(num)
+        with self._lock:
+            if not self._source_generator_exist:
+                self._create_source_generator(num)
 
         while not self._buffer_overflow:
-            if self.block_buffer[calling_obj]:
-                yield self.block_buffer[calling_obj].pop()
-            else:
-                try:
-                    self._fill_block_buffers(objs_to_inspect)
-                except StopIteration:
-                    self._source_generator_exist = False
-                    return
+            with self._lock:
+                block = self.block_buffer[calling_obj].pop() if self.block_buffer[calling_obj] else None
+                if block is None:
+                    try:
+                        self._fill_block_buffers(objs_to_inspect)
+                    except StopIteration:
+                        self._source_generator_exist = False
+                        return
+            if block is not None:
+                yield block
         else:
             msg = 'Maximum size of block buffer is reached!'
             raise OSError(msg)
-- 
2.43.0


From 5385b47eada82b4b5c3ab6311bceacb36fe70eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 11/69] fix: power spectra failed in readonly caching mode if
 the cached array was only initialized

---
 acoular/spectra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 94676ff..7643eaa 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -526,6 +526,8 @@ class PowerSpectra(BaseSpectra):
 
         ac = self.h5f.get_data_by_reference(nodename)
         if ac[:].sum() == 0:  # only initialized
+            if config.global_caching == 'readonly':
+                return func()
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
             self.h5f.flush()
-- 
2.43.0


From 6a1a726e0eb21c0c1fb5012b06547e6163c141fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 12/69] fix: TimeReverse returned wrong samples for sources
 that reuse the memory of their blocks

---
 acoular/tprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index db3f275..c8c0b25 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1426,7 +1426,8 @@ class TimeReverse(TimeOut):
 
         """
         result_list = []
-        result_list.extend(self.source.result(num))
+        # sources may reuse the memory of their blocks
+        result_list.extend(block.copy() for block in self.source.result(num))
         temp = empty_like(result_list[0])
         h = result_list.pop()
         nsh = h.shape[0]
-- 
2.43.0


From fc9d18646e08c25e736f7fe17926081707c4f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 13/69] fix: SampleSplitter overwrote queued blocks of sources
 that reuse the memory of their blocks

---
 acoular/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 815e708..35677ad 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -542,7 +542,8 @@ class SampleSplitter(InOut):
         self._source_generator_exist = True  # indicates full generator
 
     def _fill_block_buffers(self, inspect_objs):
-        next_block = next(self._source_generator)
+        # sources may reuse the memory of their blocks
+        next_block = next(self._source_generator).copy()
         # a full buffer overflows only if there is a further block to store
         self._inspect_buffer_levels(inspect_objs)
         [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
-- 
2.43.0


From 8f51f5796e357878bb69f59449a36dd6530652a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 14/69] fix: Mixer changed the data of its first source in
 place

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index c8c0b25..2e4afd0 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1338,7 +1338,7 @@ class Mixer(TimeOut):
                     return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
-                temp += temp1[: temp.shape[0]]
+                temp = temp + temp1[: temp.shape[0]]
             yield temp
             if sh > temp.shape[0]:
                 break
-- 
2.43.0


From 99d0eab6168f9141394fa10e8350fe4f08491f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 15/69] fix: SourceMixer changed the data of its first source
 in place

---
 acoular/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0d3bd5c..fabccf6 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2316,7 +2316,7 @@ class SourceMixer(SamplesGenerator):
             weights = array([1.0 for j in range(len(self.sources))])
         assert weights.shape[0] == len(self.sources)
         for temp in self.sources[0].result(num):
-            temp *= weights[0]
+            temp = temp * weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
                 temp1 = next(g) * weights[j + 1]
-- 
2.43.0


From ac297fa2423e405ead358dff17ad9e13715eba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:08 +0000
Subject: [PATCH 16/69] fix: RFFT announced a wrong number of snapshots for
 overlapping blocks

---
 acoular/fprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 8f9e7d9..6d70610 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -69,7 +69,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The total number of snapshots (blocks) available in the FFT result,
     #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', '_block_size'])
+    num_samples = Property(depends_on=['source.num_samples', '_block_size', 'overlap'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -93,7 +93,7 @@ class RFFT(BaseSpectra, SpectraOut):
     @cached_property
     def _get_num_samples(self):
         if self.source.num_samples >= 0:
-            return int(np.floor(self.source.num_samples / self.block_size))
+            return max(int(np.floor(self.overlap_ * (self.source.num_samples / self.block_size - 1))) + 1, 0)
         return -1
 
     def _get_block_size(self):
-- 
2.43.0


From a20eb4fbc81cb4f200d25dd138948f70676dec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:08 +0000
Subject: [PATCH 17/69] fix: RFFT delivered a zero spectrum for signals shorter
 than one block

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 6d70610..863bc82 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -157,7 +157,7 @@ class RFFT(BaseSpectra, SpectraOut):
             svalue = 1 / wind.sum()
         wind = wind[:, np.newaxis]
         fftdata = np.zeros((num, self.num_channels * self.num_freqs), dtype=self.precision)
-        j = 0
+        j = num - 1
         for i, data in enumerate(self._get_source_data()):  # yields one block of time data
             j = i % num
             fftdata[j] = self._scale(
-- 
2.43.0


From 5be216be18695abc2f80bc6bdcdd3a3d46854ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:08 +0000
Subject: [PATCH 18/69] fix: CrossPowerSpectra failed for the calculation of
 one triangle of the matrix

---
 acoular/fprocess.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 863bc82..2321b03 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -391,7 +391,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels'])
+    num_channels = Property(depends_on=['source.num_channels', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
@@ -444,10 +444,12 @@ class CrossPowerSpectra(AutoPowerSpectra):
                     [np.fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
                     csm_flat[i] = (csm_lower + csm_upper).reshape(-1)
                 elif self.calc_mode == 'upper':
-                    csm_flat[i] = csm_upper[:, :nc].reshape(-1)
+                    rows, cols = np.triu_indices(nc_src)
+                    csm_flat[i] = csm_upper[:, rows, cols].reshape(-1)
                 else:  # lower
                     csm_lower = csm_upper.conj().transpose(0, 2, 1)
-                    csm_flat[i] = csm_lower[:, :nc].reshape(-1)
+                    rows, cols = np.tril_indices(nc_src)
+                    csm_flat[i] = csm_lower[:, rows, cols].reshape(-1)
                 csm_upper[...] = 0  # calcCSM adds cumulative
             yield csm_flat[: i + 1] * scale
 
-- 
2.43.0


From 9f691bd46c2df2efc3fd5479a2354eccb442b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 19/69] fix: reading the frequency range of power spectra
 failed for an open range

---
 acoular/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 7643eaa..76d0587 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -292,7 +292,7 @@ class PowerSpectra(BaseSpectra):
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-            if self._ind_high is None:
+            if self.ind_high is None:
                 return array([fftfreq[self.ind_low], None])
             return fftfreq[[self.ind_low, self.ind_high]]
         return None
-- 
2.43.0


From 2ef70907acee99cb8e2de8c9d24e27bcc7440582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 20/69] fix: power spectra kept an outdated index range when
 changing between index and frequency limits

---
 acoular/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 76d0587..afe3ef0 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -302,7 +302,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc'])
+    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc', '_index_set_last'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -311,7 +311,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc'])
+    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc', '_index_set_last'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-- 
2.43.0


From beb1a41f933ed8c4d0947c99f6d5f8f8c029d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:17 +0000
Subject: [PATCH 21/69] fix: objects with different parameters shared one
 digest

---
 acoular/internal.py | 62 +++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index f29480d..1c55aed 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -1,25 +1,37 @@
-# ------------------------------------------------------------------------------
-# Copyright (c) Acoular Development Team.
-# ------------------------------------------------------------------------------
-
-from hashlib import md5
-
-
-def digest(obj, name='digest'):
-    str_ = [str(obj.__class__).encode('UTF-8')]
-    for do_ in obj.trait(name).depends_on:
-        vobj = obj
-        try:
-            for i in do_.split('.'):
-                vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
-            str_.append(str(vobj).encode('UTF-8'))
-        except:  # noqa: E722
-            pass
-    return '_' + md5(b''.join(str_)).hexdigest()
-
-
-def ldigest(obj_list):
-    str_ = []
-    for i in obj_list:
-        str_.append(str(i.digest).encode('UTF-8'))
-    return '_' + md5(b''.join(str_)).hexdigest()
+# ------------------------------------------------------------------------------
+# Copyright (c) Acoular Development Team.
+# ------------------------------------------------------------------------------
+
+from hashlib import md5
+
+from numpy import ndarray
+
+
+def _to_bytes(value):
+    # string representations of arrays are abbreviated and rounded
+    if isinstance(value, ndarray) and not value.dtype.hasobject:
+        value_ = f'{value.dtype}{value.shape}'.encode() + value.tobytes()
+    else:
+        value_ = str(value).encode('UTF-8')
+    # length is included to separate subsequent values from each other
+    return f'{len(value_)}:'.encode() + value_
+
+
+def digest(obj, name='digest'):
+    str_ = [str(obj.__class__).encode('UTF-8')]
+    for do_ in obj.trait(name).depends_on:
+        vobj = obj
+        try:
+            for i in do_.split('.'):
+                vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
+            str_.append(_to_bytes(vobj))
+        except:  # noqa: E722
+            pass
+    return '_' + md5(b''.join(str_)).hexdigest()
+
+
+def ldigest(obj_list):
+    str_ = []
+    for i in obj_list:
+        str_.append(_to_bytes(i.digest))
+    return '_' + md5(b''.join(str_)).hexdigest()
-- 
2.43.0


From febc2977df455a5ef52943d0c5d0711ed1fd603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:17 +0000
Subject: [PATCH 22/69] fix: imported cross spectral matrices with different
 content shared one digest

---
 acoular/spectra.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index afe3ef0..1b1c135 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -24,12 +24,10 @@ from numpy import (
     fill_diagonal,
     hamming,
     hanning,
-    imag,
     linalg,
     ndarray,
     newaxis,
     ones,
-    real,
     searchsorted,
     sum,  # noqa A004
     zeros,
@@ -666,7 +664,7 @@ class PowerSpectraImport(PowerSpectra):
     _ind_high = Union(None, Int, desc='index of highest frequency line')
 
     #: A unique identifier for the spectra, based on its properties. (read-only)
-    digest = Property(depends_on=['_csmsum'])
+    digest = Property(depends_on=['_csm', 'frequencies'])
 
     #: Name of the cache file without extension. (read-only)
     basename = Property(depends_on=['digest'], desc='basename for cache file')
@@ -674,9 +672,6 @@ class PowerSpectraImport(PowerSpectra):
     # Shadow trait for storing the CSM, for internal use only.
     _csm = CArray()
 
-    # Checksum for the CSM to trigger digest calculation, for internal use only.
-    _csmsum = Float()
-
     def _get_basename(self):
         return 'csm_import_' + self.digest
 
@@ -695,7 +690,6 @@ class PowerSpectraImport(PowerSpectra):
             msg = 'The cross spectral matrix must have the following shape: \
             (number of frequencies, num_channels, num_channels)!'
             raise ValueError(msg)
-        self._csmsum = real(self._csm).sum() + (imag(self._csm) ** 2).sum()  # to trigger new digest creation
         self._csm = csm
 
     @property_depends_on(['digest'])
-- 
2.43.0


From 194897e4816aa166467b8f80abeadb321627f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:27 +0000
Subject: [PATCH 23/69] fix: outdated frequency range of imported spectra after
 a change of the frequencies

---
 acoular/spectra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 1b1c135..8b3f39d 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -286,7 +286,7 @@ class PowerSpectra(BaseSpectra):
     def _get_num_blocks(self):
         return self.overlap_ * self.source.num_samples / self.block_size - self.overlap_ + 1
 
-    @property_depends_on(['source.sample_freq', 'block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['source.sample_freq', 'block_size', 'ind_low', 'ind_high', 'digest'])
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -300,7 +300,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc', '_index_set_last'])
+    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc', '_index_set_last', 'digest'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -309,7 +309,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc', '_index_set_last'])
+    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc', '_index_set_last', 'digest'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -330,7 +330,7 @@ class PowerSpectra(BaseSpectra):
         self._index_set_last = True
         self._ind_low = ind_low
 
-    @property_depends_on(['block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['block_size', 'ind_low', 'ind_high', 'digest'])
     def _get_indices(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-- 
2.43.0


From e6cc307c26c49ff65d7a84c85bac8d9b048e315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 24/69] fix: digests of sources did not include all of their
 parameters

---
 acoular/sources.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index fabccf6..f0962bb 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -609,7 +609,17 @@ class MaskedTimeSamples(TimeSamples):
     )
 
     #: A unique identifier for the samples, based on its properties. (read-only)
-    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum'])
+    digest = Property(
+        depends_on=[
+            'basename',
+            'start',
+            'stop',
+            'calib.digest',
+            'invalid_channels',
+            '_datachecksum',
+            'sample_freq',
+        ],
+    )
 
     @cached_property
     def _get_digest(self):
@@ -984,6 +994,7 @@ class SphericalHarmonicSource(PointSource):
             'alpha',
             'lOrder',
             'prepadding',
+            'direction',
         ],
     )
 
@@ -1119,6 +1130,7 @@ class MovingPointSource(PointSource):
             'start',
             'trajectory.digest',
             'prepadding',
+            'up',
         ],
     )
 
@@ -1383,6 +1395,9 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             'start',
             'up',
             'direction',
+            'conv_amp',
+            'trajectory.digest',
+            'rvec',
         ],
     )
 
@@ -1630,6 +1645,9 @@ class LineSource(PointSource):
             'direction',
             'source_strength',
             'coherence',
+            'length',
+            'num_sources',
+            'prepadding',
         ],
     )
 
@@ -1742,6 +1760,13 @@ class MovingLineSource(LineSource, MovingPointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
+            'source_strength',
+            'coherence',
+            'conv_amp',
+            'trajectory.digest',
+            'rvec',
         ],
     )
 
-- 
2.43.0


From 2098094a85f73f23155ae2361d1acd5ed2ede7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 25/69] fix: digest of Calib did not include the excluded
 channels

---
 acoular/calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index 06a57e1..6ac37ba 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -98,7 +98,7 @@ class Calib(InOut):
     channels = Property(depends_on=['invalid_channels', 'num_mics'], desc='channel mask')
 
     # Internal identifier
-    digest = Property(depends_on=['source.digest', 'data'])
+    digest = Property(depends_on=['source.digest', 'data', 'invalid_channels'])
 
     @on_trait_change('data')
     def set_num_mics(self):
-- 
2.43.0


From 1f1579a502aefa956e0420db69647d9a8f241cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 26/69] fix: digests of AngleTracker and spatial interpolators
 did not include all of their parameters

---
 acoular/tprocess.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 2e4afd0..a9c307c 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -525,6 +525,9 @@ class AngleTracker(MaskedTimeOut):
             'rot_direction',
             'interp_points',
             'start_angle',
+            'start',
+            'stop',
+            'invalid_channels',
         ],
     )
 
@@ -745,6 +748,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1175,6 +1180,8 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1231,6 +1238,8 @@ class SpatialInterpolatorConstantRotation(SpatialInterpolator):  # pragma: no co
             'Q',
             'interp_at_zero',
             'rotational_speed',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
-- 
2.43.0


From 22e55b4ca81d41235954b373edd89d596c7caa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:44 +0000
Subject: [PATCH 27/69] fix: reference distance zero of a steering vector
 raised an error

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a4baf27..a8468f2 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -208,7 +208,7 @@ class SteeringVector(HasStrictTraits):
         if isscalar(self.ref):
             if self.ref > 0:
                 return full((self.grid.size,), self.ref)
-            return self.env._r(self.grid.pos())
+            return self.env._r(self.grid.pos)
         return self.env._r(self.grid.pos, self.ref[:, newaxis])
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
-- 
2.43.0


From 541bcf773b74dd5720466d58c8782129c28a4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 28/69] fix: point spread functions were not calculated for all
 requested grid points in modes 'single' and 'block'

---
 acoular/fbeamform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a8468f2..53172fc 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -58,7 +58,6 @@ from numpy import (
     index_exp,
     inf,
     integer,
-    invert,
     isscalar,
     log10,
     ndarray,
@@ -1091,7 +1090,7 @@ class PointSpreadFunction(HasStrictTraits):
         if self.calcmode != 'full':
             # calc_ind has the form [True, True, False, True], except
             # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else invert(gp[:][self.grid_indices])
+            calc_ind = [0] if self.grid_indices.size == 1 else gp[:][self.grid_indices] == 0
 
             # get indices which have the value True = not yet calculated
             g_ind_calc = self.grid_indices[calc_ind]
-- 
2.43.0


From 4fd02d0e486bd8a7c050ae43872cb9e5b4630135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 29/69] fix: point spread function of one grid point raised an
 error for custom steering vectors

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 53172fc..9b6c24e 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1134,7 +1134,7 @@ class PointSpreadFunction(HasStrictTraits):
         else:
             # for arbitrary steering sectors, use general calculation. there is a version of this in
             # fastFuncs, may be used later after runtime testing and debugging
-            product = dot(self.steer.steer_vector(self.freq).conj(), self.steer.transfer(self.freq, ind).T)
+            product = dot(self.steer.steer_vector(self.freq).conj(), self.steer.transfer(self.freq, array(ind)).T)
             result = (product * product.conj()).real
         return result
 
-- 
2.43.0


From 44217f4cb271e3a0e7f6b5329c137790f42f9961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:43 +0000
Subject: [PATCH 30/69] fix: point spread function kept the indices of a
 previous grid if none are set

---
 acoular/fbeamform.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 9b6c24e..2142863 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1046,20 +1046,23 @@ class PointSpreadFunction(HasStrictTraits):
         gp = self.h5f.get_data_by_reference('gridpts', '/' + nodename)
         return (ac, gp)
 
+    def _get_selected(self):
+        """Indices of the requested grid points, all if none are set."""
+        return self.grid_indices if self.grid_indices.size else arange(self.steer.grid.size)
+
     def _get_psf(self):
         """Implements the :attr:`psf` getter routine.
         The point spread function is either loaded or calculated.
         """
         gs = self.steer.grid.size
-        if not self.grid_indices.size:
-            self.grid_indices = arange(gs)
+        grid_indices = self._get_selected()
 
         if config.global_caching != 'none':
             #            print("get filecache..")
             (ac, gp) = self._get_filecache()
             if ac and gp:
                 #                print("cached data existent")
-                if not gp[:][self.grid_indices].all():
+                if not gp[:][grid_indices].all():
                     #                    print("calculate missing results")
                     if self.calcmode == 'readonly':
                         msg = "Cannot calculate missing PSF (points) in 'readonly' mode."
@@ -1067,13 +1070,13 @@ class PointSpreadFunction(HasStrictTraits):
                     if config.global_caching == 'readonly':
                         (ac, gp) = (ac[:], gp[:])
                         self.calc_psf(ac, gp)
-                        return ac[:, self.grid_indices]
+                        return ac[:, grid_indices]
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, self.grid_indices]
+                    return ac[:, grid_indices]
                 #                else:
                 #                    print("cached results are complete! return.")
-                return ac[:, self.grid_indices]
+                return ac[:, grid_indices]
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
@@ -1083,17 +1086,18 @@ class PointSpreadFunction(HasStrictTraits):
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
             self.calc_psf(ac, gp)
-        return ac[:, self.grid_indices]
+        return ac[:, grid_indices]
 
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
         if self.calcmode != 'full':
+            grid_indices = self._get_selected()
             # calc_ind has the form [True, True, False, True], except
             # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else gp[:][self.grid_indices] == 0
+            calc_ind = [0] if grid_indices.size == 1 else gp[:][grid_indices] == 0
 
             # get indices which have the value True = not yet calculated
-            g_ind_calc = self.grid_indices[calc_ind]
+            g_ind_calc = grid_indices[calc_ind]
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
-- 
2.43.0


From 3f822b6b92583c03d429170e23bf46b9db032833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:43 +0000
Subject: [PATCH 31/69] fix: cached point spread functions of close frequencies
 were mixed up

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 2142863..c65d9b9 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1018,7 +1018,7 @@ class PointSpreadFunction(HasStrictTraits):
         exist and global caching mode is 'readonly'.
         """
         filename = 'psf' + self.digest
-        nodename = (f'Hz_{self.freq:.2f}').replace('.', '_')
+        nodename = f'Hz_{self.freq!r}'.replace('.', '_').replace('-', 'm').replace('+', 'p')
         #        print("get cachefile:", filename)
         H5cache.get_cache_file(self, filename)
         if not self.h5f:  # only happens in case of global caching readonly
-- 
2.43.0


From db1bc1cce9377dc3ff83f344d2d675c5b370c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:43 +0000
Subject: [PATCH 32/69] fix: interrupted calculation of point spread functions
 was cached as complete

---
 acoular/fbeamform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index c65d9b9..cc85516 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1104,14 +1104,13 @@ class PointSpreadFunction(HasStrictTraits):
                 ac[:, ind] = self._psf_call([ind])[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
-            gp[:] = 1
             ac[:] = self._psf_call(arange(self.steer.grid.size))
+            gp[:] = 1
         else:  # 'block' # calculate selected psfs in one go
             hh = self._psf_call(g_ind_calc)
             for indh, ind in enumerate(g_ind_calc):
-                gp[ind] = 1
                 ac[:, ind] = hh[:, indh]
-                indh += 1
+                gp[ind] = 1
 
     def _psf_call(self, ind):
         """Manages the calling of the core psf functionality.
-- 
2.43.0


From 7c10cce44ec99b113a88d471c300c68ecf10b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 33/69] fix: objects that changed to another cache file raised
 an error

---
 acoular/h5cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index c073543..dd3385f 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -95,7 +95,7 @@ class HDF5Cache(HasStrictTraits):
             if Path(obj.h5f.filename).resolve() == filename:
                 self.busy = False
                 return
-            self._decrease_file_reference_counter(obj.h5f.filename)
+            self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
-- 
2.43.0


From bf8e1c04666e594bc036513d6480e9f30ff87712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 34/69] fix: last line of a beamforming result was zero when
 accessed by index -1

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index cc85516..141d13f 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -292,7 +292,7 @@ class LazyBfResult:
         # 'intelligent' [] operator checks if results are available and triggers calculation
         sl = index_exp[key][0]
         if isinstance(sl, (int, integer)):
-            sl = slice(sl, sl + 1)
+            sl = slice(sl, sl + 1 or None)
         # indices which are missing
         missingind = arange(*sl.indices(self.bf._numfreq))[self.bf._fr[sl] == 0]
         # calc if needed
-- 
2.43.0


From e46ef4213ab2cb373c09e9dbf82bd551fdf03538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 35/69] fix: beamforming results kept while settings change
 mixed (and cached) results of both settings

---
 acoular/fbeamform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 141d13f..c3fa3ff 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -287,8 +287,12 @@ class LazyBfResult:
 
     def __init__(self, bf):
         self.bf = bf
+        self._digest = getattr(bf, 'digest', None)
 
     def __getitem__(self, key):
+        if self._digest != self.bf.digest:
+            # settings have changed: do not mix with (or store as) the results of the previous ones
+            return self.bf.result[key]
         # 'intelligent' [] operator checks if results are available and triggers calculation
         sl = index_exp[key][0]
         if isinstance(sl, (int, integer)):
-- 
2.43.0


From 4705f54fe337e5a368683ce2f7357e5d43a93121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 36/69] fix: orthogonal beamforming counted sources twice after
 an interrupted calculation

---
 acoular/fbeamform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index c3fa3ff..40d1cfa 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1448,6 +1448,8 @@ class BeamformerOrth(BeamformerBase):
         for i in ind:
             eva = array(self.freq_data.eva[i], dtype='float64')
             eve = array(self.freq_data.eve[i], dtype='complex128')
+            # a previous calculation may have been interrupted
+            self._ac[i] = 0
             for n in self.eva_list:
                 beamformerOutput = beamformerFreq(
                     param_steer_type,
-- 
2.43.0


From 9a1c40a1f7f88df8eaf6bceb4a41f51031d6aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:00 +0000
Subject: [PATCH 37/69] fix: integration over a sector used no or previous
 frequencies if the result was not accessed before

---
 acoular/fbeamform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 40d1cfa..ad82b63 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -663,6 +663,7 @@ class BeamformerBase(HasStrictTraits):
                 msg,
             )
         gshape = self.steer.grid.shape
+        result = self.result  # also updates the frequencies
         if num == 0 or frange is None:
             if frange is None:
                 ind_low = self.freq_data.ind_low
@@ -686,7 +687,7 @@ class BeamformerBase(HasStrictTraits):
                 )
             h = zeros(self._numfreq, dtype=float)
             sl = slice(*irange)
-            r = self.result[sl]
+            r = result[sl]
             for i in range(*irange):
                 # we do this per frequency because r might not have fancy indexing
                 h[i] = r[i - sl.start].reshape(gshape)[ind].sum()
-- 
2.43.0


From 3b342f0cc215fe29443d350b91659ed66409b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:00 +0000
Subject: [PATCH 38/69] fix: integration over a sector raised an error for
 gridless beamforming

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index ad82b63..c04b3a4 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2337,8 +2337,8 @@ class BeamformerAdaptiveGrid(BeamformerBase, Grid):
                 msg,
             )
 
+        r = self.result[:]  # also determines the positions
         ind = self.subdomain(sector)
-        r = self.result
         h = zeros(r.shape[0])
         for i in range(r.shape[0]):
             h[i] = r[i][ind].sum()
-- 
2.43.0


From 9de7cbd66d4ce8f13f1530609098ce9462108c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 39/69] fix: index of a grid point was wrong or out of range if
 the increment does not divide the side length

---
 acoular/grids.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 78ae40b..1ce1242 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -477,9 +477,14 @@ class RectGrid(Grid):
         if y < self.y_min or y > self.y_max:
             msg = 'y-value out of range'
             raise ValueError(msg)
-        xi = int((x - self.x_min) / self.increment + 0.5)
-        yi = int((y - self.y_min) / self.increment + 0.5)
-        return xi, yi
+        return tuple(
+            # distance of points differs from increment if that does not divide the side length
+            int((val - vmin) / (vmax - vmin) * (steps - 1) + 0.5) if steps > 1 else 0
+            for val, vmin, vmax, steps in (
+                (x, self.x_min, self.x_max, self.nxsteps),
+                (y, self.y_min, self.y_max, self.nysteps),
+            )
+        )
 
     def indices(self, *r):
         """
@@ -704,14 +709,15 @@ class RectGrid3D(RectGrid):
         if z < self.z_min or z > self.z_max:
             msg = f'z-value out of range {z:f} ({self.z_min:f}, {self.z_max:f})'
             raise ValueError(msg)
-        if isscalar(self.increment):
-            incx = incy = incz = self.increment
-        else:
-            incx, incy, incz = self.increment
-        xi = int(round((x - self.x_min) / incx))
-        yi = int(round((y - self.y_min) / incy))
-        zi = int(round((z - self.z_min) / incz))
-        return xi, yi, zi
+        return tuple(
+            # distance of points differs from increment if that does not divide the side length
+            int(round((val - vmin) / (vmax - vmin) * (steps - 1))) if steps > 1 else 0
+            for val, vmin, vmax, steps in (
+                (x, self.x_min, self.x_max, self.nxsteps),
+                (y, self.y_min, self.y_max, self.nysteps),
+                (z, self.z_min, self.z_max, self.nzsteps),
+            )
+        )
 
     def indices(self, x1, y1, z1, x2, y2, z2):
         """
-- 
2.43.0


From aa878eca43e0ad59424600f58792f88810b320d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 40/69] fix: line grid with one point, the default, raised an
 error

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 1ce1242..644734d 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1005,7 +1005,7 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
-        dist = self.length / (self.num_points - 1)
+        dist = self.length / max(self.num_points - 1, 1)
         loc = array(self.loc, dtype=float).reshape((3, 1))
         direc_n = array(self.direction) / norm(self.direction)
         pos = zeros((self.num_points, 3))
-- 
2.43.0


From fc2931bfc01aee5af5983a5e54978b8884b0073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 41/69] fix: shape of line and merged grids was no tuple

---
 acoular/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 644734d..8570b2c 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1001,7 +1001,7 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
@@ -1072,7 +1072,7 @@ class MergeGrid(Grid):
 
     @property_depends_on(['digest'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['digest'])
     def _get_subgrids(self):
-- 
2.43.0


From 05fa9ac384c0d819fdab71cfb6dab4263549e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 42/69] fix: names of subgrids in a merged grid did not belong
 to its points

---
 acoular/grids.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 8570b2c..7849c04 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1079,7 +1079,9 @@ class MergeGrid(Grid):
         subgrids = zeros((1, 0), dtype=str)
         for grid in self.grids:
             subgrids = append(subgrids, tile(grid.__class__.__name__ + grid.digest, grid.size))
-        return subgrids[:, newaxis].T
+        # same order as in pos, without duplicates
+        index = unique(concatenate([zeros((3, 0))] + [grid.pos for grid in self.grids], axis=1), return_index=True, axis=1)[1]
+        return subgrids[index][:, newaxis].T
 
     @property_depends_on(['digest'])
     def _get_pos(self):
-- 
2.43.0


From a264bbb29c4fcbc05d2909ef19a51f0c5fed1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 43/69] fix: polygon sectors without grid points inside
 returned an arbitrary one instead of the nearest

---
 acoular/grids.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 7849c04..783eecc 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1474,7 +1474,8 @@ class PolySector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)
+            x, y = array(self.edges).reshape(-1, 2).mean(0)
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
             inds[argmin(dr2)] = True
 
         return inds
@@ -1532,7 +1533,8 @@ class ConvexSector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            x, y = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
             inds[argmin(dr2)] = True
 
         return inds
-- 
2.43.0


From 9c3e6ce18a4d6ab0328eb4e8ea3a76cade96e7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 44/69] fix: cuboid sector without grid points inside ignored
 the z coordinate to find the nearest one

---
 acoular/grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 783eecc..8652ff8 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1342,7 +1342,8 @@ class RectSector3D(RectSector):
         if ~inds.any() and self.default_nearest:
             x = (xmin + xmax) / 2.0
             y = (ymin + ymax) / 2.0
-            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
+            z = (zmin + zmax) / 2.0
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2 + (pos[2, :] - z) ** 2
             inds[argmin(dr2)] = True
 
         return inds.astype(bool)
-- 
2.43.0


From 7a189f6f26f300ef8c516bcf696ef8ac159542eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:32 +0000
Subject: [PATCH 45/69] fix: points in the first triangle of a convex hull were
 outside if its border is not included

---
 acoular/grids.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 8652ff8..1348e6a 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -56,7 +56,7 @@ from numpy import (
 from scipy.linalg import norm
 
 # from matplotlib.path import Path
-from scipy.spatial import Delaunay
+from scipy.spatial import ConvexHull, Delaunay
 from traits.api import (
     ABCHasStrictTraits,
     Bool,
@@ -131,7 +131,9 @@ def in_hull(p, hull, border=True, tol=0):
 
     if border:
         return hull.find_simplex(p, tol=tol) >= 0
-    return hull.find_simplex(p, tol=tol) > 0
+    # strictly inside of all faces
+    eq = ConvexHull(hull.points).equations
+    return (asarray(p) @ eq[:, :-1].T + eq[:, -1] < -tol).all(axis=1)
 
 
 def _det(xvert, yvert):
-- 
2.43.0


From f80ce8058d713c93f61283c7c095c1e69e72c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:00 +0000
Subject: [PATCH 46/69] fix: time domain beamformers failed if the samples
 remaining at the end were fewer than the longest delay

---
 acoular/tbeamform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 34daa16..41311ee 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -174,6 +174,8 @@ class BeamformerTime(TimeOut):
             p_res *= weights
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
+                if num < 1:  # not enough samples left for any output
+                    break
                 n_index = arange(0, num + 1)[:, newaxis]
             # init step
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
@@ -430,6 +432,8 @@ class BeamformerTimeTraj(BeamformerTime):
                 num = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
                 n_index = arange(num, dtype=idtype)[:, newaxis]
                 flag = False
+                if num < 1:  # not enough samples left for any output
+                    break
             # init step
             p_res = time_block.copy()
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
-- 
2.43.0


From 3909fd33047207f549537df4b150881cae441dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:26 +0000
Subject: [PATCH 47/69] fix: spatial weighting of time domain beamformers
 failed, or was applied repeatedly to overlapping blocks

---
 acoular/tbeamform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 41311ee..18f0cfb 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -73,7 +73,7 @@ def const_power_weight(bf):
     array of floats
         The weight factors.
     """
-    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos)  # distances to center
+    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos).ravel()  # distances to center
     # round the relative distances to one decimal place
     r = (r / r.max()).round(decimals=1)
     ru, ind = unique(r, return_inverse=True)
@@ -171,7 +171,7 @@ class BeamformerTime(TimeOut):
             dtype=fdtype,
         )
         for p_res in buffer.result(num):
-            p_res *= weights
+            p_res = p_res * weights  # not in place, the blocks overlap
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
                 if num < 1:  # not enough samples left for any output
@@ -425,7 +425,8 @@ class BeamformerTimeTraj(BeamformerTime):
 
             try:
                 time_block = next(buffered_result)
-                time_block *= weights
+                # not in place, the blocks overlap
+                time_block = (time_block * weights).astype(fdtype, copy=False)
             except StopIteration:
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
-- 
2.43.0


From ccd01982cbc7552c538cd76b0c27ad5a98262326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:59 +0000
Subject: [PATCH 48/69] fix: time domain beamformers with trajectory ignored a
 reference position given as a vector

---
 acoular/tbeamform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 18f0cfb..e6214d4 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -351,9 +351,11 @@ class BeamformerTimeTraj(BeamformerTime):
         return (ma * sum(rmv.reshape((3, -1)) * fdv, 0) / rm.reshape(-1)).reshape(rm.shape)
 
     def get_r0(self, tpos):
-        if isscalar(self.steer.ref) and self.steer.ref > 0:
-            return self.steer.ref  # full((self.steer.grid.size,), self.steer.ref)
-        return self.steer.env._r(tpos)
+        if isscalar(self.steer.ref):
+            if self.steer.ref > 0:
+                return self.steer.ref  # full((self.steer.grid.size,), self.steer.ref)
+            return self.steer.env._r(tpos)
+        return self.steer.env._r(tpos, self.steer.ref[:, newaxis])
 
     def result(self, num=2048):
         """Python generator that yields the time-domain beamformer output.
-- 
2.43.0


From 5a1c9af900f9ca764deda358df64c9dd06a3f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:59 +0000
Subject: [PATCH 49/69] fix: time domain beamformers with trajectory failed if
 the trajectory ends before the last block is complete

---
 acoular/tbeamform.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index e6214d4..32cdcb5 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -410,13 +410,24 @@ class BeamformerTimeTraj(BeamformerTime):
         buffered_result = buffer.result(num)
         while flag:
             for i in range(num):
-                tpos = next(movgpos).astype(fdtype)
+                tpos = next(movgpos, None)
+                if tpos is None:  # end of trajectory
+                    num = i
+                    flag = False
+                    break
+                tpos = tpos.astype(fdtype)
                 rm = self.steer.env._r(tpos, mpos)  # .astype(fdtype)
                 blockr0[i, :] = self.get_r0(tpos)
                 blockrm[i, :, :] = rm
                 if self.conv_amp:
                     ht = next(movgspeed)
                     blockrmconv[i, :, :] = rm * (1 - self._get_macostheta(ht, tpos, rm)) ** 2
+            if num < 1:
+                break
+            if not flag:
+                blockrm, blockrmconv, blockr0 = blockrm[:num], blockrmconv[:num], blockr0[:num]
+                amp, d_index, d_interp2 = amp[:num], d_index[:num], d_interp2[:num]
+                n_index = n_index[:num]
             if self.conv_amp:
                 steer_func(blockrmconv, blockr0, amp)
             else:
-- 
2.43.0


From 3823489264285b53eac30fa2ff7ebf1d45d3352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:37 +0000
Subject: [PATCH 50/69] fix: PointSource read beyond its signal, and yielded
 too many blocks, with late start or long delays

---
 acoular/sources.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index f0962bb..639e4ac 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -96,18 +96,19 @@ from .trajectory import Trajectory
 
 @nb.njit(cache=True, error_model='numpy')  # pragma: no cover
 def _fill_mic_signal_block(out, signal, rm, ind, blocksize, num_channels, up, prepadding):
+    n = signal.shape[0]  # the signal is repeated before its start and after its end
     if prepadding:
         for b in range(blocksize):
             for m in range(num_channels):
                 if ind[0, m] < 0:
                     out[b, m] = 0
                 else:
-                    out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                    out[b, m] = signal[int(0.5 + ind[0, m]) % n] / rm[0, m]
             ind += up
     else:
         for b in range(blocksize):
             for m in range(num_channels):
-                out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                out[b, m] = signal[int(0.5 + ind[0, m]) % n] / rm[0, m]
             ind += up
     return out
 
@@ -924,7 +925,7 @@ class PointSource(SamplesGenerator):
 
         if self.prepadding == 'zeros':
             # number of blocks where signal behaviour is amended
-            pre = -int(npmin(ind[0]) // (self.up * num))
+            pre = max(0, -int(npmin(ind[0]) // (self.up * num)))
             # amend signal for first blocks
             # if signal stops during prepadding, terminate
             if pre >= N:
-- 
2.43.0


From 5accac7a1120e4d7638e7daadc1a3b7dc36d6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:37 +0000
Subject: [PATCH 51/69] fix: dipole and line sources yielded an empty block at
 the end, with which mixing failed

---
 acoular/sources.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 639e4ac..34b24fd 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1360,7 +1360,8 @@ class PointSourceDipole(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
@@ -1590,7 +1591,8 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class LineSource(PointSource):
@@ -1723,7 +1725,8 @@ class LineSource(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingLineSource(LineSource, MovingPointSource):
@@ -1970,7 +1973,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 @deprecated_alias({'numchannels': 'num_channels'}, read_only=True)
-- 
2.43.0


From a07b40fda63fc0c34b762e48ba531c8c0dadceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:37 +0000
Subject: [PATCH 52/69] fix: line sources changed their signal generator with
 every calculation, so that results were not repeatable

---
 acoular/sources.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 34b24fd..890b182 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1658,6 +1658,19 @@ class LineSource(PointSource):
     def _get_digest(self):
         return digest(self)
 
+    def _get_source_signals(self):
+        # upsampled signals of all monopoles, shape (num_sources, number of upsampled samples)
+        if self.coherence == 'coherent':
+            return array([self.signal.usignal(self.up) * self.source_strength[s] for s in range(self.num_sources)])
+        # a new seed for every source, the signal generator itself is left as it was
+        seed = int(self.digest[-7:], 16)
+        signals = []
+        for s in range(self.num_sources):
+            signal = self.signal.clone_traits()
+            signal.seed = s + seed
+            signals.append(signal.usignal(self.up) * self.source_strength[s])
+        return array(signals)
+
     def result(self, num=128):
         """
         Generate the output signal at microphones in blocks.
@@ -1697,16 +1710,11 @@ class LineSource(PointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
+        signals = self._get_source_signals()
         # for every source - distances
         for s in range(self.num_sources):
             rms[:, s] = self.env._r((loc.T + direc_n * dist * s).T, mpos)
             inds[:, s] = (-rms[:, s] / c - self.start_t + self.start) * self.sample_freq
-            # new seed for every source
-            if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
         i = 0
         n = self.num_samples
         while n:
@@ -1927,14 +1935,7 @@ class MovingLineSource(LineSource, MovingPointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
-        # coherence
-        for s in range(self.num_sources):
-            # new seed for every source
-            if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+        signals = self._get_source_signals()
         mpos = self.mics.pos
 
         # shortcuts and initial values
-- 
2.43.0


From fd56734791183951875adf933cd613abf604a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:55 +0000
Subject: [PATCH 53/69] fix: UncorrelatedNoiseSource ignored the filter
 coefficients and depth of its noise generator

---
 acoular/sources.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 890b182..59407c0 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2114,7 +2114,6 @@ class UncorrelatedNoiseSource(SamplesGenerator):
         - Each channel's noise signal is generated using a unique random seed.
         - The type and characteristics of the noise are defined by the :attr:`signal` attribute.
         """
-        Noise = self.signal.__class__
         # create or get the array of random seeds
         if not self.seed.size > 0:
             seed = arange(self.num_channels) + self.signal.seed
@@ -2124,12 +2123,12 @@ class UncorrelatedNoiseSource(SamplesGenerator):
             msg = f'Seed array expected to be of shape ({self.num_channels:d},), but has shape {self.seed.shape}.'
             raise ValueError(msg)
         # create array with [num_channels] noise signal tracks
-        signal = array(
-            [
-                Noise(seed=s, num_samples=self.num_samples, sample_freq=self.sample_freq, rms=self.signal.rms).signal()
-                for s in seed
-            ],
-        ).T
+        noise = self.signal.clone_traits()
+        tracks = []
+        for s in seed:
+            noise.seed = int(s)
+            tracks.append(noise.signal())
+        signal = array(tracks).T
 
         n = num
         while n <= self.num_samples:
-- 
2.43.0


From d2b0d793e7eca0ea2170f27e576899522ef24867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:19 +0000
Subject: [PATCH 54/69] fix: moving sources counted the start time twice

---
 acoular/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 59407c0..3aec5bc 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1204,7 +1204,7 @@ class MovingPointSource(PointSource):
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
             # emission time relative to start time
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
             try:
@@ -1570,7 +1570,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             rm1 = self.env._r(loc + diff, mpos)
             rm2 = self.env._r(loc - diff, mpos)
 
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
                 rm1 *= (1 - Mr) ** 2  # assume that Mr is the same for both poles
@@ -1956,7 +1956,7 @@ class MovingLineSource(LineSource, MovingPointSource):
                 loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
-                inds[:, s] = (te - self.start_t + self.start) * self.sample_freq
+                inds[:, s] = (te - self.start_t) * self.sample_freq
 
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
-- 
2.43.0


From 23136b9e3142d7933700d219c6e2836fd78128a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:56 +0000
Subject: [PATCH 55/69] fix: emission times of moving sources did not converge
 for fast sources and microphones away from the origin

---
 acoular/sources.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 3aec5bc..6c108e2 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1194,12 +1194,13 @@ class MovingPointSource(PointSource):
             # Newton-Rhapson iteration
             while abs(eps).max() > epslim and j < 100:
                 loc = array(tr.location(te))
-                rm = loc - m.pos  # distance vectors to microphones
-                rm = sqrt((rm * rm).sum(0))  # absolute distance
+                dvec = loc - m.pos  # distance vectors to microphones
+                rm = sqrt((dvec * dvec).sum(0))  # absolute distance
                 loc /= sqrt((loc * loc).sum(0))  # distance unit vector
                 der = array(tr.location(te, der=1))
                 Mr = (der * loc).sum(0) / c0  # radial Mach number
-                eps = (te + rm / c0 - t) / (1 + Mr)  # discrepancy in time
+                drm = (der * dvec).sum(0) / rm / c0  # change of travel time
+                eps = (te + rm / c0 - t) / (1 + drm)  # discrepancy in time
                 te -= eps
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
@@ -1457,12 +1458,13 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             xs = array(self.trajectory.location(te))
             loc = xs.copy()
             loc += direction
-            rm = loc - self.mics.pos  # distance vectors to microphones
-            rm = sqrt((rm * rm).sum(0))  # absolute distance
+            dvec = loc - self.mics.pos  # distance vectors to microphones
+            rm = sqrt((dvec * dvec).sum(0))  # absolute distance
             loc /= sqrt((loc * loc).sum(0))  # distance unit vector
             der = array(self.trajectory.location(te, der=1))
             Mr = (der * loc).sum(0) / self.env.c  # radial Mach number
-            eps = (te + rm / self.env.c - t) / (1 + Mr)  # discrepancy in time
+            drm = (der * dvec).sum(0) / rm / self.env.c  # change of travel time
+            eps = (te + rm / self.env.c - t) / (1 + drm)  # discrepancy in time
             te -= eps
             j += 1  # iteration count
         return te, rm, Mr, xs
@@ -1890,12 +1892,13 @@ class MovingLineSource(LineSource, MovingPointSource):
             xs = array(self.trajectory.location(te))
             loc = xs.copy()
             loc += direction
-            rm = loc - self.mics.pos  # distance vectors to microphones
-            rm = sqrt((rm * rm).sum(0))  # absolute distance
+            dvec = loc - self.mics.pos  # distance vectors to microphones
+            rm = sqrt((dvec * dvec).sum(0))  # absolute distance
             loc /= sqrt((loc * loc).sum(0))  # distance unit vector
             der = array(self.trajectory.location(te, der=1))
             Mr = (der * loc).sum(0) / self.env.c  # radial Mach number
-            eps = (te + rm / self.env.c - t) / (1 + Mr)  # discrepancy in time
+            drm = (der * dvec).sum(0) / rm / self.env.c  # change of travel time
+            eps = (te + rm / self.env.c - t) / (1 + drm)  # discrepancy in time
             te -= eps
             j += 1  # iteration count
         return te, rm, Mr, xs
-- 
2.43.0


From 8910d26a917e986195b38e57b2a07dd76383b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 56/69] fix: identities differed between default values and the
 same values set explicitly

---
 acoular/fbeamform.py | 4 ++--
 acoular/grids.py     | 2 +-
 acoular/sources.py   | 2 +-
 acoular/tprocess.py  | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index c04b3a4..644eb92 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -708,7 +708,7 @@ class BeamformerFunctional(BeamformerBase):
     """
 
     #: Functional exponent, defaults to 1 (= Classic Beamforming).
-    gamma = Float(1, desc='functional exponent')
+    gamma = Float(1.0, desc='functional exponent')
 
     #: Functional Beamforming is only well defined for full CSM
     r_diag = Enum(False, desc='False, as Functional Beamformer is only well defined for the full CSM')
@@ -2105,7 +2105,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
 
     #: Norm to consider for the regularization in InverseIRLS and Suzuki methods
     #: defaults to L-1 Norm
-    pnorm = Float(1, desc='Norm for regularization')
+    pnorm = Float(1.0, desc='Norm for regularization')
 
     #: Beta - Fraction of sources maintained after each iteration
     #: defaults to 0.9
diff --git a/acoular/grids.py b/acoular/grids.py
index 1348e6a..094c6ff 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -975,7 +975,7 @@ class LineGrid(Grid):
     direction = Tuple((1.0, 0.0, 0.0), desc='Line orientation ')
 
     #: Total length of the line. Default is ``1.0``.
-    length = Float(1, desc='length of the line source')
+    length = Float(1.0, desc='length of the line source')
 
     #: Number of grid points along the line. Default is ``1``.
     num_points = Int(1, desc='length of the line source')
diff --git a/acoular/sources.py b/acoular/sources.py
index 6c108e2..be087d5 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1626,7 +1626,7 @@ class LineSource(PointSource):
     direction = Tuple((0.0, 0.0, 1.0), desc='Line orientation ')
 
     #: Vector to define the length of the line source in meters. Default is ``1.0``.
-    length = Float(1, desc='length of the line source')
+    length = Float(1.0, desc='length of the line source')
 
     #: Number of monopole sources in the line source. Default is ``1``.
     num_sources = Int(1)
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index a9c307c..9fe35c8 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -544,7 +544,7 @@ class AngleTracker(MaskedTimeOut):
     interp_points = Int(4, desc='Points of interpolation used for spline')
 
     # rotation angle in radians for first trigger position
-    start_angle = Float(0, desc='rotation angle for trigger position')
+    start_angle = Float(0.0, desc='rotation angle for trigger position')
 
     # revolutions per minute for each sample, read-only
     rpm = Property(depends_on=['digest'], desc='revolutions per minute for each sample')
@@ -729,7 +729,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     num_IDW = Int(3, desc='number of neighboring microphones, DEFAULT=3')  # noqa: N815
 
     p_weight = Float(
-        2,
+        2.0,
         desc='used in interpolation for virtual microphone, weighting power exponent for IDW',
     )
 
-- 
2.43.0


From b739ccd904a55d97424bab38bdc44de537f2427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 57/69] fix: GeneralFlowEnvironment used ray tracing results of
 outdated parameters and grids

---
 acoular/environments.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index f179e06..8941f82 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -819,7 +819,7 @@ class GeneralFlowEnvironment(Environment):
 
     #: A unique identifier based on the environment properties. (read-only)
     digest = Property(
-        depends_on=['c', 'ff.digest', 'N', 'Om'],
+        depends_on=['c', 'ff.digest', 'N', 'Om', 'roi'],
     )
 
     #: A dictionary for storing precomputed interpolators to optimize repeated calculations.
@@ -838,14 +838,13 @@ class GeneralFlowEnvironment(Environment):
 
         gt = empty((gpos.shape[-1], mpos.shape[-1]))
         for micnum, x0 in enumerate(mpos.T):
-            key = x0.tobytes()  # make array hashable
+            roi = gpos if self.roi is None else self.roi
+            # make array hashable, stored interpolators are valid for one set of parameters and positions
+            key = (self.digest, roi.tobytes(), x0.tobytes())
             try:
                 li = self.idict[key]  # fetch stored interpolator
             except KeyError:
                 # if interpolator doesn't exist, construct it
-                roi = gpos
-                if self.roi is not None:
-                    roi = self.roi
                 li = self.get_interpolator(roi, x0)
                 self.idict[key] = li
             # do the interpolation
-- 
2.43.0


From 5f61797463d5980a19dd2c0f6150d0b99f7028f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 58/69] fix: outdated digest of GenericSignalGenerator after a
 change of the number of samples

---
 acoular/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/signals.py b/acoular/signals.py
index 9c04ec9..cc05832 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -603,7 +603,7 @@ class GenericSignalGenerator(SignalGenerator):
     #: The number of samples to generate. Default is the number of samples available in the
     #: :attr:`source` (``source.num_samples``). If set explicitly, it can exceed the source length,
     #: in which case the signal will loop if :attr:`loop_signal` is ``True``.
-    num_samples = Property()
+    num_samples = Property(depends_on=['_num_samples', 'source.num_samples'])
 
     def _get_num_samples(self):
         if self._num_samples:
-- 
2.43.0


From 3b080ece4359c25dd41b17be9e510cbfbb40c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 59/69] fix: digest of MergeGrid was different for every object

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 094c6ff..59395bc 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1058,7 +1058,7 @@ class MergeGrid(Grid):
     subgrids = Property(desc='names of subgrids for each point')
 
     #: A unique identifier for the grid, based on its properties. (read-only)
-    digest = Property(depends_on=['grids', 'grid_digest'])
+    digest = Property(depends_on=['grid_digest'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 51e646f687aaf43c47a73e4802d6f1c4ee91e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 60/69] fix: outdated digest of TimeSamples with data in
 memory, and the same digest for different data

---
 acoular/sources.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index be087d5..34c16cc 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -43,6 +43,7 @@ from numpy import (
     empty,
     int64,
     mod,
+    ndarray,
     newaxis,
     ones,
     pi,
@@ -397,16 +398,17 @@ class TimeSamples(SamplesGenerator):
     #: Metadata loaded from the HDF5 file, if available.
     metadata = Dict(desc='metadata contained in .h5 file')
 
-    # Checksum over first data entries of all channels
-    _datachecksum = Property()
+    # Data in memory, or checksum over first data entries of all channels for data in a file
+    _datachecksum = Property(depends_on=['data'])
 
     #: A unique identifier for the samples, based on its properties. (read-only)
     digest = Property(
         depends_on=['basename', 'calib.digest', '_datachecksum', 'sample_freq', 'num_channels', 'num_samples']
     )
 
+    @cached_property
     def _get__datachecksum(self):
-        return self.data[0, :].sum()
+        return self.data if isinstance(self.data, ndarray) else self.data[0, :].sum()
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 535bf7c80b5ca24ee0cc4ad6c6b4452e7a50e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 61/69] fix: OctaveFilterBank used outdated filters after a
 change of its bands

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 9fe35c8..04913fa 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1745,7 +1745,7 @@ class OctaveFilterBank(FilterBank):
     fraction = Map({'Octave': 1, 'Third octave': 3}, default_value='Octave', desc='fraction of octave')
 
     # List of filter coefficients for all filters
-    ba = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
+    sos = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
 
     # List of labels for bands
     bands = Property(depends_on=['lband', 'hband', 'fraction'])
-- 
2.43.0


From 18b769d4b090429ca9e2c58613e2e80c5bba8030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 62/69] fix: spatial interpolators used outdated geometries
 after changes

---
 acoular/tprocess.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 04913fa..e6e0557 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -676,14 +676,12 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     mics = Instance(MicGeom(), desc='microphone geometry')
 
     # :class:`~acoular.microphones.MicGeom` object that provides the virtual microphone locations.
-    mics_virtual = Property(desc='microphone geometry')
+    mics_virtual = Property(depends_on=['mics', '_mics_virtual'], desc='microphone geometry')
 
     _mics_virtual = Instance(MicGeom, desc='internal microphone geometry;internal usage, read only')
 
     def _get_mics_virtual(self):
-        if not self._mics_virtual and self.mics:
-            self._mics_virtual = self.mics
-        return self._mics_virtual
+        return self._mics_virtual if self._mics_virtual else self.mics
 
     def _set_mics_virtual(self, mics_virtual):
         self._mics_virtual = mics_virtual
@@ -734,8 +732,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     )
 
     # Stores the output of :meth:`_virtNewCoord_func`; Read-Only
-    _virtNewCoord_func = Property(  # noqa: N815
-        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero'],
+    _virtNewCoord = Property(  # noqa: N815
+        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero', 'Q'],
     )
 
     # internal identifier
@@ -761,7 +759,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         return digest(self)
 
     @cached_property
-    def _get_virtNewCoord(self):  # noqa N802
+    def _get__virtNewCoord(self):  # noqa N802
         return self._virtNewCoord_func(self.mics.mpos, self.mics_virtual.mpos, self.method, self.array_dimension)
 
     def sinc_mic(self, r):
@@ -940,7 +938,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         # number of virtual mixcs
         nVirtMics = self.mics_virtual.mpos.shape[1]
         # mesh and projection onto polar Coordinates
-        meshList, virtNewCoord, newCoord = self._get_virtNewCoord()
+        meshList, virtNewCoord, newCoord = self._virtNewCoord
         # pressure interpolation init
         pInterp = zeros((nTime, nVirtMics))
         # Coordinates in cartesian CO - for IDW interpolation
-- 
2.43.0


From 12b74541719b6986a0341de85ce0696ce8f96083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:40 +0000
Subject: [PATCH 63/69] fix: AngleTracker failed or used wrong triggers unless
 the speed is constant and the first trigger is at sample 0

---
 acoular/tprocess.py | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e6e0557..508dc36 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -46,7 +46,6 @@ from numpy import (
     argsort,
     array,
     array_equal,
-    asarray,
     ceil,
     concatenate,
     cumsum,
@@ -66,11 +65,11 @@ from numpy import (
     newaxis,
     pi,
     polymul,
+    searchsorted,
     sin,
     sinc,
     split,
     sqrt,
-    stack,
     sum,  # noqa: A004
     tile,
     unique,
@@ -569,11 +568,6 @@ class AngleTracker(MaskedTimeOut):
     def _get_digest(self):
         return digest(self)
 
-    # helperfunction for trigger index detection
-    def _find_nearest_idx(self, peakarray, value):
-        peakarray = asarray(peakarray)
-        return (abs(peakarray - value)).argmin()
-
     def _to_rpm_and_angle(self):
         """Internal helper function
         Calculates angles in radians for one or more instants in time.
@@ -596,28 +590,12 @@ class AngleTracker(MaskedTimeOut):
 
         # loop over all timesamples
         while ind < num:
-            # when starting spline forward
-            if ind < peakloc[InterpPoints]:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) + 1]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist : ind // peakdist + InterpPoints]),
-                    axis=0,
-                )
-            # spline backwards
-            else:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) - 1]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist - InterpPoints : ind // peakdist]),
-                    axis=0,
-                )
+            # the trigger instants next to the sample, at the ends of the signal the first or last ones
+            first = searchsorted(peakloc, ind, side='right') - (InterpPoints + 1) // 2
+            first = max(min(first, len(peakloc) - InterpPoints), 0)
+            locs = peakloc[first : first + InterpPoints]
             # calc angles and rpm
-            Spline = splrep(splineData[:, :][1], splineData[:, :][0], k=3)
+            Spline = splrep(locs, range(first, first + len(locs)), k=min(3, len(locs) - 1))
             self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate
             self._angle[ind] = (
                 splev(ind, Spline, der=0, ext=0) * 2 * pi * rotDirection / TriggerPerRevo + self.start_angle
-- 
2.43.0


From 5f728101dc71acdfcb0887a82a4b5571906c4c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:40 +0000
Subject: [PATCH 64/69] fix: rpm of AngleTracker ignored the number of triggers
 per revolution

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 508dc36..a9540ca 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -596,7 +596,7 @@ class AngleTracker(MaskedTimeOut):
             locs = peakloc[first : first + InterpPoints]
             # calc angles and rpm
             Spline = splrep(locs, range(first, first + len(locs)), k=min(3, len(locs) - 1))
-            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate
+            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) / TriggerPerRevo * 60 * samplerate
             self._angle[ind] = (
                 splev(ind, Spline, der=0, ext=0) * 2 * pi * rotDirection / TriggerPerRevo + self.start_angle
             ) % (2 * pi)
-- 
2.43.0


From 548be5740e592695cbb15cfe5c22e877b47b31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:40 +0000
Subject: [PATCH 65/69] fix: Trigger locations of rect signals were one sample
 early in the first block

---
 acoular/tprocess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index a9540ca..e412b58 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -407,7 +407,7 @@ class Trigger(TimeOut):  # pragma: no cover
         # get all samples which surpasse the threshold
         peakLoc = array([], dtype='int')  # all indices which surpasse the threshold
         trigger_data = array([])
-        x0 = []
+        x0 = None
         dSamples = 0
         for triggerSignal in self.source.result(num):
             localTrigger = flatnonzero(triggerFunc(x0, triggerSignal, threshold))
@@ -460,7 +460,8 @@ class Trigger(TimeOut):  # pragma: no cover
 
     def _trigger_rect(self, x0, x, threshold):
         # x0 stores the last value of the the last generator cycle
-        xNew = append(x0, x)
+        # there is no predecessor of the very first sample
+        xNew = append(x[:1] if x0 is None else x0, x)
         # indPeakHunk = abs(xNew[1:] - xNew[:-1]) > abs(threshold)
         # with above line, every edge would be located
         return self._trigger_value_comp(xNew[1:] - xNew[:-1], threshold)
-- 
2.43.0


From 98f1276ac9f92e21c991e2fc922a9ab21505fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:40 +0000
Subject: [PATCH 66/69] fix: Trigger failed for uneven revolutions if the
 source has no start attribute

---
 acoular/tprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e412b58..13ccde7 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -448,7 +448,7 @@ class Trigger(TimeOut):  # pragma: no cover
         if faultyInd.size != 0:
             warn(
                 f'In Trigger-Identification: The distances between the peaks (and therefore the lengths of the \
-                revolutions) vary too much (check samples {peakLoc[faultyInd] + self.source.start}).',
+                revolutions) vary too much (check samples {peakLoc[faultyInd] + getattr(self.source, "start", 0)}).',
                 Warning,
                 stacklevel=2,
             )
@@ -591,7 +591,7 @@ class AngleTracker(MaskedTimeOut):
 
         # loop over all timesamples
         while ind < num:
-            # the trigger instants next to the sample, at the ends of the signal the first or last ones
+            # trigger instants next to the sample, the first or last ones at the ends of the signal
             first = searchsorted(peakloc, ind, side='right') - (InterpPoints + 1) // 2
             first = max(min(first, len(peakloc) - InterpPoints), 0)
             locs = peakloc[first : first + InterpPoints]
-- 
2.43.0


From c7690914cd4c52183ed179d6245500c98e57e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:03 +0000
Subject: [PATCH 67/69] fix: the last ray direction was nan for rays in all
 directions

---
 acoular/environments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index 8941f82..d858426 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -760,7 +760,9 @@ def spiral_sphere(N, Om=None, b=None):  # noqa: N803 # change to 4*pi
     theta = arccos(h)
     phi = zeros_like(theta)
     for i, hk in enumerate(h[1:]):
-        phi[i + 1] = phi[i] + 3.6 / sqrt(N * o * (1 - hk * hk)) % (2 * pi)
+        # any azimuth is right at the pole
+        dphi = 3.6 / sqrt(N * o * (1 - hk * hk)) % (2 * pi) if hk < 1.0 else 0.0
+        phi[i + 1] = phi[i] + dphi
     # translate to cartesian coords
     xyz = vstack((sin(theta) * cos(phi), sin(theta) * sin(phi), cos(theta)))
     # mirror everything on a plane so that b points into the center
-- 
2.43.0


From 22e573d439e4a0a03b3a6bd12e7e8bf2d224b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:51 +0000
Subject: [PATCH 68/69] fix: outdated digest of imported spectra after a change
 from no frequencies to a single one

---
 acoular/spectra.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 8b3f39d..f3f3851 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -37,6 +37,7 @@ from traits.api import (
     ABCHasStrictTraits,
     Bool,
     CArray,
+    ComparisonMode,
     Delegate,
     Enum,
     Float,
@@ -631,7 +632,12 @@ class PowerSpectraImport(PowerSpectra):
 
     #: The frequencies included in the CSM in ascending order. Accepts list, array, or a single
     #: float value.
-    frequencies = Union(CArray, Float, desc='frequencies included in the cross-spectral matrix')
+    frequencies = Union(
+        CArray,
+        Float,
+        desc='frequencies included in the cross-spectral matrix',
+        comparison_mode=ComparisonMode.identity,
+    )
 
     #: Number of time data channels, inferred from the shape of the CSM.
     num_channels = Property(depends_on=['digest'])
-- 
2.43.0


From 1bccf5ddec4dd1fa09547a9eb49b99435bae8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:06 +0000
Subject: [PATCH 69/69] fix: microphones could not be excluded before the
 positions are set

---
 acoular/microphones.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/microphones.py b/acoular/microphones.py
index d51ca00..acf3315 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -165,7 +165,7 @@ class MicGeom(HasStrictTraits):
         if len(self.invalid_channels) == 0:
             return self.pos_total
         allr = [i for i in range(self.pos_total.shape[-1]) if i not in self.invalid_channels]
-        return self.pos_total[:, array(allr)]
+        return self.pos_total[:, array(allr, dtype=int)]
 
     @cached_property
     def _get_num_mics(self):
-- 
2.43.0

