From e78c48876bad82f0792ee044a39df555fc8f2515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 01/93] fix: MaskedTimeOut delivered blocks are no longer
 overwritten by later blocks

---
 acoular/tprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 014f751..d8cca6b 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -240,7 +240,7 @@ class MaskedTimeOut(TimeOut):
                     buf[bsize : bsize + bs - (i - stop), :] = block[: bs - (i - stop), self.channels]
                     bsize += bs - (i - stop)
                     if bsize > num:
-                        yield buf[:num]
+                        yield buf[:num].copy()
                         buf[: bsize - num, :] = buf[num:bsize, :]
                         bsize -= num
                     yield buf[:bsize, :]
@@ -249,7 +249,7 @@ class MaskedTimeOut(TimeOut):
                     buf[bsize : bsize + bs, :] = block[:, self.channels]
                     bsize += bs
                 if bsize >= num:
-                    yield buf[:num]
+                    yield buf[:num].copy()
                     buf[: bsize - num, :] = buf[num:bsize, :]
                     bsize -= num
 
-- 
2.43.0


From 26054fda4dea6bdbc9fa8b77ff5082c9c299da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 02/93] fix: TimeReverse delivered blocks are no longer
 overwritten by later blocks

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index d8cca6b..71eb302 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1433,7 +1433,7 @@ class TimeReverse(TimeOut):
         temp[:nsh] = h[::-1]
         for h in result_list[::-1]:
             temp[nsh:] = h[: nsh - 1 : -1]
-            yield temp
+            yield temp.copy()
             temp[:nsh] = h[nsh - 1 :: -1]
         yield temp[:nsh]
 
-- 
2.43.0


From 56fd10a7c04591b098ca8c57abd9ac0515326ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 03/93] fix: Mixer no longer adds in place into the data of its
 source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 71eb302..ce088c1 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1338,7 +1338,7 @@ class Mixer(TimeOut):
                     return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
-                temp += temp1[: temp.shape[0]]
+                temp = temp + temp1[: temp.shape[0]]
             yield temp
             if sh > temp.shape[0]:
                 break
-- 
2.43.0


From 05eb2b5684157083337f3b28b296a594b6f0dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 04/93] fix: SourceMixer no longer scales and adds in place
 into the data of its first source

---
 acoular/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0d3bd5c..fabccf6 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2316,7 +2316,7 @@ class SourceMixer(SamplesGenerator):
             weights = array([1.0 for j in range(len(self.sources))])
         assert weights.shape[0] == len(self.sources)
         for temp in self.sources[0].result(num):
-            temp *= weights[0]
+            temp = temp * weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
                 temp1 = next(g) * weights[j + 1]
-- 
2.43.0


From 7cd52f05df5bd4ec78bdc3b0b44d0093b80a9e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 05/93] fix: FilterBank delivers a shorter last block and does
 not reuse the delivered array

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index ce088c1..644329a 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1715,8 +1715,8 @@ class FilterBank(TimeOut):
         snumch = self.source.num_channels
         sos = self.sos
         zi = [zeros((sos[0].shape[0], 2, snumch)) for _ in range(numbands)]
-        res = zeros((num, self.num_channels), dtype='float')
         for block in self.source.result(num):
+            res = zeros((block.shape[0], self.num_channels), dtype='float')
             for i in range(numbands):
                 res[:, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
             yield res
-- 
2.43.0


From 015a46ae1803a9fb7bc22987221b61a7b5dbb026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 06/93] fix: PointSource delivered blocks are no longer
 overwritten by later blocks

---
 acoular/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index fabccf6..f41bfda 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -920,7 +920,7 @@ class PointSource(SamplesGenerator):
             if pre >= N:
                 for _nb in range(N - 1):
                     out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, True)
-                    yield out
+                    yield out.copy()
 
                 blocksize = self.num_samples % num or num
                 out = _fill_mic_signal_block(out, signal, rm, ind, blocksize, self.num_channels, self.up, True)
@@ -929,7 +929,7 @@ class PointSource(SamplesGenerator):
             else:
                 for _nb in range(pre):
                     out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, True)
-                    yield out
+                    yield out.copy()
 
         else:
             pre = 0
@@ -937,7 +937,7 @@ class PointSource(SamplesGenerator):
         # main generator
         for _nb in range(N - pre - 1):
             out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, False)
-            yield out
+            yield out.copy()
 
         # last block of variable size
         blocksize = self.num_samples % num or num
-- 
2.43.0


From ad22d86868504fb57c1e4369c5fe1efd4783ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 07/93] fix: moving and dipole source blocks are no longer
 overwritten by later blocks

---
 acoular/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index f41bfda..28cdb99 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1198,7 +1198,7 @@ class MovingPointSource(PointSource):
                 out[i] = signal[array(0.5 + ind * self.up, dtype=int64)] / rm
                 i += 1
                 if i == num:
-                    yield out
+                    yield out.copy()
                     i = 0
             except IndexError:  # if no more samples available from the source
                 break
@@ -1342,7 +1342,7 @@ class PointSourceDipole(PointSource):
 
                 i += 1
                 if i == num:
-                    yield out
+                    yield out.copy()
                     i = 0
             except IndexError:
                 break
@@ -1570,7 +1570,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                 )
                 i += 1
                 if i == num:
-                    yield out
+                    yield out.copy()
                     i = 0
             except IndexError:
                 break
-- 
2.43.0


From 1efefc1983e2270a60188c9f04a70c8238447b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 08/93] fix: dipole and line sources no longer deliver an empty
 trailing block

---
 acoular/sources.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 28cdb99..0fa03cc 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1347,7 +1347,8 @@ class PointSourceDipole(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:
+            yield out[:i]
 
 
 class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
@@ -1574,7 +1575,8 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:
+            yield out[:i]
 
 
 class LineSource(PointSource):
@@ -1704,7 +1706,8 @@ class LineSource(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:
+            yield out[:i]
 
 
 class MovingLineSource(LineSource, MovingPointSource):
@@ -1944,7 +1947,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:
+            yield out[:i]
 
 
 @deprecated_alias({'numchannels': 'num_channels'}, read_only=True)
-- 
2.43.0


From 029102cfaa540399c8322f1394663d600079d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 09/93] fix: line sources no longer change the signal object of
 the user while they are read

---
 acoular/sources.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0fa03cc..0305158 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1684,10 +1684,11 @@ class LineSource(PointSource):
             rms[:, s] = self.env._r((loc.T + direc_n * dist * s).T, mpos)
             inds[:, s] = (-rms[:, s] / c - self.start_t + self.start) * self.sample_freq
             # new seed for every source
+            signal = self.signal.clone_traits()
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                signal.seed = s + int(self.digest[1:9], 16)
+            signal.rms = self.signal.rms * self.source_strength[s]
+            signals[s] = signal.usignal(self.up)
         i = 0
         n = self.num_samples
         while n:
@@ -1905,10 +1906,11 @@ class MovingLineSource(LineSource, MovingPointSource):
         # coherence
         for s in range(self.num_sources):
             # new seed for every source
+            signal = self.signal.clone_traits()
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                signal.seed = s + int(self.digest[1:9], 16)
+            signal.rms = self.signal.rms * self.source_strength[s]
+            signals[s] = signal.usignal(self.up)
         mpos = self.mics.pos
 
         # shortcuts and initial values
-- 
2.43.0


From 4818b68564301c98fbadb5c092e6f016b6dfaba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 10/93] fix: PointSource never reads outside of the signal and
 delivers no extra blocks for start > start_t

---
 acoular/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0305158..24e9e33 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -102,12 +102,12 @@ def _fill_mic_signal_block(out, signal, rm, ind, blocksize, num_channels, up, pr
                 if ind[0, m] < 0:
                     out[b, m] = 0
                 else:
-                    out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                    out[b, m] = signal[int(0.5 + ind[0, m]) % signal.shape[0]] / rm[0, m]
             ind += up
     else:
         for b in range(blocksize):
             for m in range(num_channels):
-                out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                out[b, m] = signal[int(0.5 + ind[0, m]) % signal.shape[0]] / rm[0, m]
             ind += up
     return out
 
@@ -914,7 +914,7 @@ class PointSource(SamplesGenerator):
 
         if self.prepadding == 'zeros':
             # number of blocks where signal behaviour is amended
-            pre = -int(npmin(ind[0]) // (self.up * num))
+            pre = max(0, -int(npmin(ind[0]) // (self.up * num)))
             # amend signal for first blocks
             # if signal stops during prepadding, terminate
             if pre >= N:
-- 
2.43.0


From e54681a50aebbf1ea74a59d16b49ef9a19827d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 11/93] fix: Average advertises the whole number of averages it
 delivers

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 856c30a..efce8a4 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -147,7 +147,7 @@ class Average(InOut):
     @cached_property
     def _get_num_samples(self):
         if self.source:
-            return self.source.num_samples / self.num_per_average
+            return self.source.num_samples // self.num_per_average
         return None
 
     def result(self, num):
-- 
2.43.0


From f2df5e216c8331a636740fdd3a199b330d3b9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 12/93] fix: TimeConvolve convolves all channels and delivers
 every output sample for any block size

---
 acoular/tprocess.py | 72 ++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 44 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 644329a..e5a3daa 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -2030,71 +2030,55 @@ class TimeConvolve(TimeOut):
         self._validate_kernel()
         # initialize variables
         self._block_size = num
+        kernel_blocks = self._kernel_blocks
         L = self.kernel.shape[0]
         N = self.source.num_channels
-        M = self.source.num_samples
         numblocks_kernel = int(ceil(L / num))  # number of kernel blocks
-        Q = int(ceil(M / num))  # number of signal blocks
-        R = int(ceil((L + M - 1) / num))  # number of output blocks
-        last_size = (L + M - 1) % num  # size of final block
 
-        idx = 0
         fdl = zeros([numblocks_kernel, num + 1, N], dtype='complex128')
         buff = zeros([2 * num, N])  # time-domain input buffer
         spec_sum = zeros([num + 1, N], dtype='complex128')
-
-        signal_blocks = self.source.result(num)
-        temp = next(signal_blocks)
-        buff[num : num + temp.shape[0]] = temp  # append new time-data
-
-        # for very short signals, we are already done
-        if R == 1:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
-            yield irfft(spec_sum, axis=0)[num : last_size + num]
-            return
+        total = L - 1  # number of output samples, like numpy convolve w/ mode="full"
+        done = 0  # number of output samples already delivered
 
         # stream processing of source signal
-        for temp in signal_blocks:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            yield irfft(spec_sum, axis=0)[num:]
-            buff = concatenate(
-                [buff[num:], zeros([num, N])],
-                axis=0,
-            )  # shift input buffer to the left
+        for temp in self.source.result(num):
+            total += temp.shape[0]
+            buff = concatenate([buff[num:], zeros([num, N])], axis=0)  # shift input buffer to the left
             buff[num : num + temp.shape[0]] = temp  # append new time-data
-
-        for _ in range(R - Q):
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            yield irfft(spec_sum, axis=0)[num:]
-            buff = concatenate(
-                [buff[num:], zeros([num, N])],
-                axis=0,
-            )  # shift input buffer to the left
-
-        _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-        spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-        # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
-        yield irfft(spec_sum, axis=0)[num : last_size + num]
+            _append_to_fdl(fdl, numblocks_kernel, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
+            size = min(num, total - done)
+            yield irfft(spec_sum, axis=0)[num : num + size]
+            done += size
+
+        # the source is exhausted, deliver what is left of the response
+        while done < total:
+            buff = concatenate([buff[num:], zeros([num, N])], axis=0)
+            _append_to_fdl(fdl, numblocks_kernel, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
+            size = min(num, total - done)
+            yield irfft(spec_sum, axis=0)[num : num + size]
+            done += size
 
 
 @nb.jit(nopython=True, cache=True)
-def _append_to_fdl(fdl, idx, numblocks_kernel, buff):  # pragma: no cover
-    fdl[idx] = buff
-    idx = int(idx + 1 % numblocks_kernel)
+def _append_to_fdl(fdl, numblocks_kernel, buff):  # pragma: no cover
+    # the newest block comes first
+    for i in range(numblocks_kernel - 1, 0, -1):
+        fdl[i] = fdl[i - 1]
+    fdl[0] = buff
 
 
 @nb.jit(nopython=True, cache=True)
 def _spectral_sum(out, fdl, kb):  # pragma: no cover
-    P, B, N = kb.shape
+    P, B, N = fdl.shape
     for n in range(N):
+        k = n if kb.shape[2] > 1 else 0  # a single kernel is applied to all channels
         for b in range(B):
             out[b, n] = 0
             for i in range(P):
-                out[b, n] += fdl[i, b, n] * kb[i, b, n]
+                out[b, n] += fdl[i, b, n] * kb[i, b, k]
 
     return out
 
-- 
2.43.0


From c08ebd1f5eba8609149f08e72261ca897a15e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 13/93] fix: TimeConvolve no longer reshapes the kernel of the
 user, which changed its digest on first use

---
 acoular/tprocess.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e5a3daa..20c4f36 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1979,9 +1979,7 @@ class TimeConvolve(TimeOut):
         return digest(self)
 
     def _validate_kernel(self):
-        # reshape kernel for broadcasting
         if self.kernel.ndim == 1:
-            self.kernel = self.kernel.reshape([-1, 1])
             return
         # check dimensionality
         if self.kernel.ndim > 2:
@@ -1995,18 +1993,19 @@ class TimeConvolve(TimeOut):
     # compute the rfft of the kernel blockwise
     @cached_property
     def _get__kernel_blocks(self):
-        [L, N] = self.kernel.shape
+        kernel = self.kernel.reshape([self.kernel.shape[0], -1])  # for broadcasting
+        [L, N] = kernel.shape
         num = self._block_size
         P = int(ceil(L / num))
         trim = num * (P - 1)
         blocks = zeros([P, num + 1, N], dtype='complex128')
 
         if P > 1:
-            for i, block in enumerate(split(self.kernel[:trim], P - 1, axis=0)):
+            for i, block in enumerate(split(kernel[:trim], P - 1, axis=0)):
                 blocks[i] = rfft(concatenate([block, zeros([num, N])], axis=0), axis=0)
 
         blocks[-1] = rfft(
-            concatenate([self.kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
+            concatenate([kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
             axis=0,
         )
         return blocks
-- 
2.43.0


From eeeb027d9f2c11e5f874861caabd370a01ca9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 14/93] fix: convolving objects advertise the number of samples
 they deliver

---
 acoular/sources.py  | 8 +++++++-
 acoular/tprocess.py | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 24e9e33..91341e5 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2400,6 +2400,9 @@ class PointSourceConvolve(PointSource):
     #: or match the number of output channels in its second dimension.
     kernel = CArray(dtype=float, desc='Convolution kernel.')
 
+    #: Number of output samples, including the decay of the kernel.
+    num_samples = Property(depends_on=['signal.num_samples', 'kernel'])
+
     #: Start time of the signal in seconds. Default is ``0.0``.
     start_t = Enum(0.0, desc='signal start time')
 
@@ -2420,6 +2423,9 @@ class PointSourceConvolve(PointSource):
     def _get_digest(self):
         return digest(self)
 
+    def _get_num_samples(self):
+        return self.signal.num_samples + self.kernel.shape[0] - 1
+
     def result(self, num=128):
         """
         Generate the convolved signal at microphones in blocks.
@@ -2451,7 +2457,7 @@ class PointSourceConvolve(PointSource):
         source = TimeSamples(
             data=data,
             sample_freq=self.sample_freq,
-            num_samples=self.num_samples,
+            num_samples=self.signal.num_samples,
             num_channels=self.mics.num_mics,
         )
         time_convolve = TimeConvolve(
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 20c4f36..0e4e784 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1964,6 +1964,9 @@ class TimeConvolve(TimeOut):
     # it is applied to all channels.
     kernel = CArray(dtype=float, desc='Convolution kernel.')
 
+    # Number of output samples, including the decay of the kernel.
+    num_samples = Property(depends_on=['source.num_samples', 'kernel'])
+
     _block_size = Int(desc='Block size')
 
     _kernel_blocks = Property(
@@ -1978,6 +1981,11 @@ class TimeConvolve(TimeOut):
     def _get_digest(self):
         return digest(self)
 
+    def _get_num_samples(self):
+        if self.source is None or self.source.num_samples < 0:
+            return -1
+        return self.source.num_samples + self.kernel.shape[0] - 1
+
     def _validate_kernel(self):
         if self.kernel.ndim == 1:
             return
-- 
2.43.0


From 011a05a1ddc841757d181c7976b5a75bed6efdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 15/93] fix: RFFT delivers no spectrum for a source shorter
 than one block and does not overwrite delivered spectra

---
 acoular/fprocess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 8f9e7d9..a456a7a 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -156,17 +156,18 @@ class RFFT(BaseSpectra, SpectraOut):
         elif self.scaling == 'amplitude':  # compensates for the window and the energy loss
             svalue = 1 / wind.sum()
         wind = wind[:, np.newaxis]
-        fftdata = np.zeros((num, self.num_channels * self.num_freqs), dtype=self.precision)
-        j = 0
+        j = -1
         for i, data in enumerate(self._get_source_data()):  # yields one block of time data
             j = i % num
+            if j == 0:
+                fftdata = np.zeros((num, self.num_channels * self.num_freqs), dtype=self.precision)
             fftdata[j] = self._scale(
                 fft.rfft(data * wind, n=self.block_size, axis=0, workers=self.workers).astype(self.precision),
                 scaling_value=svalue,
             ).reshape(-1)
             if j == num - 1:
                 yield fftdata
-        if j < num - 1:  # yield remaining fft spectra
+        if 0 <= j < num - 1:  # yield remaining fft spectra
             yield fftdata[: j + 1]
 
 
-- 
2.43.0


From 3e223f5bb13a1b44d23fab57e536573cbe489f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 16/93] fix: RFFT advertises the number of spectra it delivers
 when the blocks overlap

---
 acoular/fprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index a456a7a..a59f869 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -69,7 +69,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The total number of snapshots (blocks) available in the FFT result,
     #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', '_block_size'])
+    num_samples = Property(depends_on=['source.num_samples', '_block_size', 'overlap'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -93,7 +93,9 @@ class RFFT(BaseSpectra, SpectraOut):
     @cached_property
     def _get_num_samples(self):
         if self.source.num_samples >= 0:
-            return int(np.floor(self.source.num_samples / self.block_size))
+            return max(
+                0, int(np.floor((self.source.num_samples / self.block_size - 1) * self.overlap_)) + 1
+            )
         return -1
 
     def _get_block_size(self):
-- 
2.43.0


From c6d0cdafba96b6ddee5d73d939644d90c2d2a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 17/93] fix: CrossPowerSpectra calc_mode 'upper' and 'lower'
 deliver the triangle of the cross-spectral matrix

---
 acoular/fprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index a59f869..82b2b83 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -447,10 +447,10 @@ class CrossPowerSpectra(AutoPowerSpectra):
                     [np.fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
                     csm_flat[i] = (csm_lower + csm_upper).reshape(-1)
                 elif self.calc_mode == 'upper':
-                    csm_flat[i] = csm_upper[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_upper[(slice(None), *np.triu_indices(nc_src))].reshape(-1)
                 else:  # lower
                     csm_lower = csm_upper.conj().transpose(0, 2, 1)
-                    csm_flat[i] = csm_lower[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_lower[(slice(None), *np.tril_indices(nc_src))].reshape(-1)
                 csm_upper[...] = 0  # calcCSM adds cumulative
             yield csm_flat[: i + 1] * scale
 
-- 
2.43.0


From b0b5f2899bffa195b4bc6b26076b366d4e3b2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 18/93] fix: CrossPowerSpectra num_channels follows calc_mode

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 82b2b83..a7b3e9e 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -394,7 +394,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels'])
+    num_channels = Property(depends_on=['source.num_channels', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
-- 
2.43.0


From 646f85be242e01a2fb339db33421cfcbc94a270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 19/93] fix: SamplesBuffer works when a source block fills the
 whole buffer

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index efce8a4..8b7e4f9 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -832,7 +832,7 @@ class SamplesBuffer(InOut):
 
     def _write_to_buffer(self, data):
         ns = data.shape[0]
-        self._buffer[0 : (self.length - ns)] = self._buffer[-(self.length - ns) :]
+        self._buffer[0 : (self.length - ns)] = self._buffer[ns:]
         self._buffer[-ns:, :] = data.astype(self.dtype)
         self._index -= ns
 
-- 
2.43.0


From 42401a4cff45f7010c54c3c56c3627c74f6a2682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 20/93] fix: SamplesBuffer delivered blocks are no longer
 overwritten by later blocks

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 8b7e4f9..b6efc92 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -884,7 +884,7 @@ class SamplesBuffer(InOut):
         """
         rnum = num if self.result_num is None else self.result_num
         rnum = rnum if self.level >= rnum else self.level
-        data = self._buffer[self._index : self._index + rnum]
+        data = self._buffer[self._index : self._index + rnum].copy()
         if self.shift_index_by == 'result_num':
             self._index += rnum
         else:
-- 
2.43.0


From c936a83ce230969772da3f56b36a4a879815889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 21/93] fix: IntegratorSectorTime delivered blocks are no
 longer overwritten by later blocks

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 34daa16..8e9154c 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -798,9 +798,9 @@ class IntegratorSectorTime(TimeOut):
         """
         inds = [self.grid.indices(*sector) for sector in self.sectors]
         gshape = self.grid.shape
-        o = empty((num, self.num_channels), dtype=float)  # output array
         for r in self.source.result(num):
             ns = r.shape[0]
+            o = empty((ns, self.num_channels), dtype=float)  # output array
             mapshape = (ns,) + gshape
             rmax = r.max()
             rmin = rmax * 10 ** (self.clip / 10.0)
-- 
2.43.0


From 6b14a08aa61934392976a7a78a4c48443461d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 22/93] fix: time domain beamformer weights 'power' work with
 the array shape numpy 2 returns

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 8e9154c..28e28ef 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -82,7 +82,7 @@ def const_power_weight(bf):
     bins *= bins
     weights = sqrt((bins[1:] - bins[:-1]) / count)
     weights /= weights.mean()
-    return weights[ind]
+    return weights[ind.ravel()]
 
 
 # possible choices for spatial weights
-- 
2.43.0


From 7ce8c0b38eded19377c3f27dd1be4d1a74232499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 23/93] fix: BeamformerTime works for block sizes smaller than
 the maximum delay

---
 acoular/tbeamform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 28e28ef..2bf034c 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -174,6 +174,8 @@ class BeamformerTime(TimeOut):
             p_res *= weights
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
+                if num <= 0:  # not enough samples left for a complete output sample
+                    break
                 n_index = arange(0, num + 1)[:, newaxis]
             # init step
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
-- 
2.43.0


From c2b58a459de11a779ecb0133b903dfed294de3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 24/93] fix: WriteH5 closes its file when the reader of
 result() stops early

---
 acoular/tprocess.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 0e4e784..52327d1 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1931,23 +1931,25 @@ class WriteH5(TimeOut):
         scount = 0
         stotal = self.num_samples_write
         source_gen = self.source.result(num)
-        while self.write_flag:
-            sleft = stotal - scount
-            if stotal != -1 and sleft > 0:
-                anz = min(num, sleft)
-            elif stotal == -1:
-                anz = num
-            else:
-                break
-            try:
-                data = next(source_gen)
-            except StopIteration:
-                break
-            f5h.append_data(ac, data[:anz])
-            f5h.flush()
-            yield data
-            scount += anz
-        f5h.close()
+        try:
+            while self.write_flag:
+                sleft = stotal - scount
+                if stotal != -1 and sleft > 0:
+                    anz = min(num, sleft)
+                elif stotal == -1:
+                    anz = num
+                else:
+                    break
+                try:
+                    data = next(source_gen)
+                except StopIteration:
+                    break
+                f5h.append_data(ac, data[:anz])
+                f5h.flush()
+                yield data
+                scount += anz
+        finally:
+            f5h.close()
 
 
 class TimeConvolve(TimeOut):
-- 
2.43.0


From b1988dc7a925541824e725c132a3cca1b7b083e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 25/93] fix: Trigger of type rect reports the sample of the
 edge in the first block as in all other blocks

---
 acoular/tprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 52327d1..fbf37cf 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -408,9 +408,11 @@ class Trigger(TimeOut):  # pragma: no cover
         # get all samples which surpasse the threshold
         peakLoc = array([], dtype='int')  # all indices which surpasse the threshold
         trigger_data = array([])
-        x0 = []
+        x0 = None
         dSamples = 0
         for triggerSignal in self.source.result(num):
+            if x0 is None:  # no edge at the very first sample
+                x0 = triggerSignal[0]
             localTrigger = flatnonzero(triggerFunc(x0, triggerSignal, threshold))
             if len(localTrigger) != 0:
                 peakLoc = append(peakLoc, localTrigger + dSamples)
-- 
2.43.0


From ee5558c02a7be71ce0c30d5a4b1bc41ffe903560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 26/93] fix: Trigger warns about varying distances for sources
 that have no start

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index fbf37cf..874cbda 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -451,7 +451,7 @@ class Trigger(TimeOut):  # pragma: no cover
         if faultyInd.size != 0:
             warn(
                 f'In Trigger-Identification: The distances between the peaks (and therefore the lengths of the \
-                revolutions) vary too much (check samples {peakLoc[faultyInd] + self.source.start}).',
+                revolutions) vary too much (check samples {peakLoc[faultyInd] + getattr(self.source, "start", 0)}).',
                 Warning,
                 stacklevel=2,
             )
-- 
2.43.0


From b5dae0b3ef4603c93174f188d233b65ed1b5980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 27/93] fix: IntegratorSectorTime clips relative to the maximum
 of each map, not of the whole block

---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 2bf034c..7ba53d3 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -804,7 +804,7 @@ class IntegratorSectorTime(TimeOut):
             ns = r.shape[0]
             o = empty((ns, self.num_channels), dtype=float)  # output array
             mapshape = (ns,) + gshape
-            rmax = r.max()
+            rmax = r.max(axis=1, keepdims=True)  # maximum of each map
             rmin = rmax * 10 ** (self.clip / 10.0)
             r = where(r > rmin, r, 0.0)
             for i, ind in enumerate(inds):
-- 
2.43.0


From 08abca35bbb5a9c02be333359a9bf81e5f6bafce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 28/93] fix: SpatialInterpolatorRotation reads the angle of its
 angle source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 874cbda..ac44f87 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1202,7 +1202,7 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
         # period for rotation
         period = 2 * pi
         # get angle
-        angle = self.angle_source.angle()
+        angle = self.angle_source.angle
         # counter to track angle position in time for each block
         count = 0
         for timeData in self.source.result(num):
-- 
2.43.0


From a567e20197da8f162c3f908d1aa4d921a072459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 29/93] fix: SpatialInterpolator method sinc works

---
 acoular/tprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index ac44f87..827abe5 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -998,7 +998,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, :],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
@@ -1045,7 +1045,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, : len(newCoord[0])],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
@@ -1119,7 +1119,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, : len(newCoord[0])],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
-- 
2.43.0


From 5908fb1cbd4847c44ae2c3af857f0eed33d1b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 30/93] fix: OctaveFilterBank filters follow changes of lband,
 hband, fraction and source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 827abe5..aee83cf 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1737,7 +1737,7 @@ class OctaveFilterBank(FilterBank):
     fraction = Map({'Octave': 1, 'Third octave': 3}, default_value='Octave', desc='fraction of octave')
 
     # List of filter coefficients for all filters
-    ba = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
+    sos = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
 
     # List of labels for bands
     bands = Property(depends_on=['lband', 'hband', 'fraction'])
-- 
2.43.0


From 5640121b891d91b177a5d46eed4e5f47124af26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 31/93] fix: SpatialInterpolator follows changes of the
 microphone geometries and interpolation settings

---
 acoular/tprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index aee83cf..838668c 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -675,7 +675,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     mics = Instance(MicGeom(), desc='microphone geometry')
 
     # :class:`~acoular.microphones.MicGeom` object that provides the virtual microphone locations.
-    mics_virtual = Property(desc='microphone geometry')
+    mics_virtual = Property(depends_on=['_mics_virtual', 'mics'], desc='microphone geometry')
 
     _mics_virtual = Instance(MicGeom, desc='internal microphone geometry;internal usage, read only')
 
@@ -733,8 +733,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     )
 
     # Stores the output of :meth:`_virtNewCoord_func`; Read-Only
-    _virtNewCoord_func = Property(  # noqa: N815
-        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero'],
+    virtNewCoord = Property(  # noqa: N815
+        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'Q', 'interp_at_zero'],
     )
 
     # internal identifier
-- 
2.43.0


From 85220a8c6c0eb5922d7e9d2b16c7483ca77e02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 32/93] fix: BeamformerTimeTraj ends normally with the
 trajectory and yields no empty block

---
 acoular/tbeamform.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 7ba53d3..5b93486 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -408,13 +408,23 @@ class BeamformerTimeTraj(BeamformerTime):
         buffered_result = buffer.result(num)
         while flag:
             for i in range(num):
-                tpos = next(movgpos).astype(fdtype)
+                tpos = next(movgpos, None)
+                if tpos is None:  # the trajectory ends here
+                    flag = False
+                    num = i
+                    n_index = arange(num, dtype=idtype)[:, newaxis]
+                    blockrm, blockrmconv, blockr0 = blockrm[:num], blockrmconv[:num], blockr0[:num]
+                    amp, d_index, d_interp2 = amp[:num], d_index[:num], d_interp2[:num]
+                    break
+                tpos = tpos.astype(fdtype)
                 rm = self.steer.env._r(tpos, mpos)  # .astype(fdtype)
                 blockr0[i, :] = self.get_r0(tpos)
                 blockrm[i, :, :] = rm
                 if self.conv_amp:
                     ht = next(movgspeed)
                     blockrmconv[i, :, :] = rm * (1 - self._get_macostheta(ht, tpos, rm)) ** 2
+            if num == 0:
+                break
             if self.conv_amp:
                 steer_func(blockrmconv, blockr0, amp)
             else:
@@ -430,6 +440,8 @@ class BeamformerTimeTraj(BeamformerTime):
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
                 num = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
+                if num == 0:  # not enough samples left for a complete output sample
+                    break
                 n_index = arange(num, dtype=idtype)[:, newaxis]
                 flag = False
             # init step
-- 
2.43.0


From 550adec1e12281e3c463273832cc9fffe378d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:34 +0000
Subject: [PATCH 33/93] fix: SampleSplitter detects the overflow of buffers
 with an individual size

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index b6efc92..9f39737 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -525,7 +525,7 @@ class SampleSplitter(InOut):
 
     def _inspect_buffer_levels(self, inspect_objs):
         for obj in inspect_objs:
-            if len(self.block_buffer[obj]) == self.buffer_size:
+            if len(self.block_buffer[obj]) == self.block_buffer[obj].maxlen:
                 if self.buffer_overflow_treatment[obj] == 'error':
                     self._buffer_overflow = True
                 elif self.buffer_overflow_treatment[obj] == 'warning':
-- 
2.43.0


From 7e9f25939fb7fb042e49acb1f759b6c928617727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:34 +0000
Subject: [PATCH 34/93] fix: SampleSplitter distributes the blocks in order and
 once when read by several threads

---
 acoular/process.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 9f39737..9a1df36 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -496,6 +496,9 @@ class SampleSplitter(InOut):
     # Helper Trait holds source generator
     _source_generator = Instance(LockedGenerator)
 
+    # Only one thread at a time may start the source or distribute its next block.
+    _fill_lock = Any(factory=threading.Lock, transient=True)
+
     def _create_block_buffer(self, obj, buffer_size=None):
         if buffer_size is None:
             buffer_size = self.buffer_size if isinstance(self.buffer_size, int) else self.buffer_size[obj]
@@ -655,21 +658,24 @@ class SampleSplitter(InOut):
         """
         calling_obj = currentframe().f_back.f_locals['self']
         self._assert_obj_registered(calling_obj)
-        objs_to_inspect = self._get_objs_to_inspect()
 
-        if not self._source_generator_exist:
-            self._create_source_generator(num)
+        with self._fill_lock:
+            if not self._source_generator_exist:
+                self._create_source_generator(num)
 
         while not self._buffer_overflow:
             if self.block_buffer[calling_obj]:
                 yield self.block_buffer[calling_obj].pop()
             else:
-                self._inspect_buffer_levels(objs_to_inspect)
-                try:
-                    self._fill_block_buffers()
-                except StopIteration:
-                    self._source_generator_exist = False
-                    return
+                with self._fill_lock:
+                    if self.block_buffer[calling_obj]:  # filled by another thread meanwhile
+                        continue
+                    self._inspect_buffer_levels(self._get_objs_to_inspect())
+                    try:
+                        self._fill_block_buffers()
+                    except StopIteration:
+                        self._source_generator_exist = False
+                        return
         else:
             msg = 'Maximum size of block buffer is reached!'
             raise OSError(msg)
-- 
2.43.0


From a8d1644c0d3f68051249aedc8c37e96f17df8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:19 +0000
Subject: [PATCH 35/93] fix: SampleSplitter reports no overflow for a full
 buffer when the source has ended

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 9a1df36..6f09364 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -543,6 +543,7 @@ class SampleSplitter(InOut):
 
     def _fill_block_buffers(self):
         next_block = next(self._source_generator)
+        self._inspect_buffer_levels(self._get_objs_to_inspect())
         [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
@@ -670,7 +671,6 @@ class SampleSplitter(InOut):
                 with self._fill_lock:
                     if self.block_buffer[calling_obj]:  # filled by another thread meanwhile
                         continue
-                    self._inspect_buffer_levels(self._get_objs_to_inspect())
                     try:
                         self._fill_block_buffers()
                     except StopIteration:
-- 
2.43.0


From 458f74a6273959c5dc3f58d62d60d78f9bbc8ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:49 +0000
Subject: [PATCH 36/93] fix: SampleSplitter does not drop blocks of an
 overflowing buffer before the error is raised

---
 acoular/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 6f09364..0f66a6a 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -544,7 +544,8 @@ class SampleSplitter(InOut):
     def _fill_block_buffers(self):
         next_block = next(self._source_generator)
         self._inspect_buffer_levels(self._get_objs_to_inspect())
-        [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
+        if not self._buffer_overflow:  # keep the blocks in the buffers, they may be read right now
+            [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
     def _change_buffer_size(self):  #
@@ -669,7 +670,8 @@ class SampleSplitter(InOut):
                 yield self.block_buffer[calling_obj].pop()
             else:
                 with self._fill_lock:
-                    if self.block_buffer[calling_obj]:  # filled by another thread meanwhile
+                    # another thread may have filled the buffers or detected an overflow meanwhile
+                    if self.block_buffer[calling_obj] or self._buffer_overflow:
                         continue
                     try:
                         self._fill_block_buffers()
-- 
2.43.0


From 87e9c6f92ed68a4114dd19fc598b7a3f43d459a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:20 +0000
Subject: [PATCH 37/93] fix: Cache of a source without any data delivers
 nothing instead of raising UnboundLocalError

---
 acoular/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 0f66a6a..ba8d60e 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -267,6 +267,7 @@ class Cache(InOut):
 
     def _write_data_to_cache(self, num):
         nodename = 'tc_' + self.digest
+        ac = None
         for i, data in enumerate(self.source.result(num)):
             if i == 0:
                 self.h5f.create_extendable_array(nodename, (0, data.shape[1]), data.dtype.name)
@@ -276,7 +277,8 @@ class Cache(InOut):
             self.h5f.append_data(ac, data)
             self.h5f.flush()
             yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if ac is not None:
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     def _get_data_from_cache(self, num):
         nodename = 'tc_' + self.digest
-- 
2.43.0


From 521bcc93e50a1a2ea6f8e18fd9250361d10f18e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:20 +0000
Subject: [PATCH 38/93] fix: cached objects can change to another cache file

---
 acoular/h5cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index c073543..dd3385f 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -95,7 +95,7 @@ class HDF5Cache(HasStrictTraits):
             if Path(obj.h5f.filename).resolve() == filename:
                 self.busy = False
                 return
-            self._decrease_file_reference_counter(obj.h5f.filename)
+            self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
-- 
2.43.0


From 2bd9a5df3bd0a1adef242675d1901bee2093e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:20 +0000
Subject: [PATCH 39/93] fix: int64 data can be cached and written with PyTables

---
 acoular/h5files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/h5files.py b/acoular/h5files.py
index a91e65f..fb7c44c 100644
--- a/acoular/h5files.py
+++ b/acoular/h5files.py
@@ -51,6 +51,7 @@ if config.have_tables:
         'float64': tables.Float64Atom(),
         'complex128': tables.ComplexAtom(16),
         'bool': tables.BoolAtom(),
+        'int64': tables.Int64Atom(),
         'int32': tables.Int32Atom(),
         'int16': tables.Int16Atom(),
         'int8': tables.Int8Atom(),
-- 
2.43.0


From dbf495027a52fbfa6251fbbe521394ab41aa2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:53 +0000
Subject: [PATCH 40/93] fix: a cache file that cannot be opened no longer
 blocks all further cache access

---
 acoular/h5cache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index dd3385f..ad4573f 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -83,17 +83,21 @@ class HDF5Cache(HasStrictTraits):
         """Returns pytables .h5 file to h5f trait of calling object for caching."""
         self._idle_if_busy()  #
         self.busy = True
+        try:
+            self._assign_cache_file(obj, basename, mode)
+        finally:
+            self.busy = False
+
+    def _assign_cache_file(self, obj, basename, mode):
         file_cls = _get_cachefile_class()
         filename = (Path(self.cache_dir) / (basename + '_cache.h5')).resolve()
 
         if config.global_caching == 'readonly' and not filename.exists():
             obj.h5f = None
-            self.busy = False
             return  # cachefile is not created in readonly mode
 
         if isinstance(obj.h5f, file_cls):
             if Path(obj.h5f.filename).resolve() == filename:
-                self.busy = False
                 return
             self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
 
@@ -109,7 +113,6 @@ class HDF5Cache(HasStrictTraits):
         # garbage collection
         self.close_unreferenced_cachefiles()
 
-        self.busy = False
         self._print_open_files()
 
 
-- 
2.43.0


From bbe8b2c68d19492d0687b56f74262549927ae582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 41/93] fix: readers of a Cache do not remove the cached data
 that another reader writes or reads

---
 acoular/process.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index ba8d60e..938f0d7 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -16,7 +16,7 @@ General purpose blockwise processing methods independent of the domain (time or
 """
 
 import threading
-from collections import deque
+from collections import Counter, deque
 from inspect import currentframe
 from warnings import warn
 
@@ -251,6 +251,10 @@ class Cache(InOut):
     # This is used to store or retrieve cached data in the Acoular cache directory.
     h5f = Instance(H5CacheFileBase, transient=True)
 
+    # Number of generators that read or write a node, for every cache file and node in use. A node
+    # in use is not removed by another generator.
+    _in_use = Counter()
+
     #: A unique identifier based on the cache properties.
     digest = Property(depends_on=['source.digest'])
 
@@ -356,11 +360,14 @@ class Cache(InOut):
                 generator = self._pass_data
             elif self.h5f.is_cached(nodename):
                 generator = self._get_data_from_cache
-                if config.global_caching == 'overwrite':
+                in_use = self._in_use[(self.h5f.filename, nodename)] > 0
+                if config.global_caching == 'overwrite' and in_use:
+                    generator = self._pass_data
+                elif config.global_caching == 'overwrite':
                     self.h5f.remove_data(nodename)
                     generator = self._write_data_to_cache
                 elif not self.h5f.get_data_by_reference(nodename).attrs.__contains__('complete'):
-                    if config.global_caching == 'readonly':
+                    if config.global_caching == 'readonly' or in_use:
                         generator = self._pass_data
                     else:
                         generator = self._get_data_from_incomplete_cache
@@ -373,13 +380,23 @@ class Cache(InOut):
                             stacklevel=1,
                         )
                         generator = self._pass_data
+                    elif in_use:
+                        generator = self._pass_data
                     else:
                         generator = self._get_data_from_incomplete_cache
             elif not self.h5f.is_cached(nodename):
                 generator = self._write_data_to_cache
                 if config.global_caching == 'readonly':
                     generator = self._pass_data
-        yield from generator(num)
+        if generator == self._pass_data:
+            yield from generator(num)
+            return
+        use = (self.h5f.filename, nodename)
+        self._in_use[use] += 1
+        try:
+            yield from generator(num)
+        finally:
+            self._in_use[use] -= 1
 
 
 class SampleSplitter(InOut):
-- 
2.43.0


From 8fa7755cd9fdc64d5995ec88243fca9435bffd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:49 +0000
Subject: [PATCH 42/93] fix: cache files opened in readonly mode can be written
 after another caching mode was set

---
 acoular/h5cache.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index ad4573f..cc2d65f 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -96,10 +96,14 @@ class HDF5Cache(HasStrictTraits):
             obj.h5f = None
             return  # cachefile is not created in readonly mode
 
-        if isinstance(obj.h5f, file_cls):
-            if Path(obj.h5f.filename).resolve() == filename:
-                return
-            self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
+        for name, file in self.open_files.items():
+            if file is obj.h5f:
+                if name == filename and (file.mode != 'r' or config.global_caching == 'readonly'):
+                    return
+                self._decrease_file_reference_counter(name)
+
+        if filename in self.open_files and config.global_caching != 'readonly' and self.open_files[filename].mode == 'r':
+            self.close_cachefile(self.open_files.pop(filename))  # was opened in readonly mode
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
-- 
2.43.0


From e90989d546e8c581f48514ef0990a1a282388812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 43/93] fix: PointSpreadFunction calculates all requested
 points, and marks them as calculated afterwards

---
 acoular/fbeamform.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a4baf27..5348d6b 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -58,7 +58,6 @@ from numpy import (
     index_exp,
     inf,
     integer,
-    invert,
     isscalar,
     log10,
     ndarray,
@@ -1091,7 +1090,7 @@ class PointSpreadFunction(HasStrictTraits):
         if self.calcmode != 'full':
             # calc_ind has the form [True, True, False, True], except
             # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else invert(gp[:][self.grid_indices])
+            calc_ind = gp[:][self.grid_indices] == 0
 
             # get indices which have the value True = not yet calculated
             g_ind_calc = self.grid_indices[calc_ind]
@@ -1101,13 +1100,13 @@ class PointSpreadFunction(HasStrictTraits):
                 ac[:, ind] = self._psf_call([ind])[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
-            gp[:] = 1
             ac[:] = self._psf_call(arange(self.steer.grid.size))
+            gp[:] = 1
         else:  # 'block' # calculate selected psfs in one go
             hh = self._psf_call(g_ind_calc)
             for indh, ind in enumerate(g_ind_calc):
-                gp[ind] = 1
                 ac[:, ind] = hh[:, indh]
+                gp[ind] = 1
                 indh += 1
 
     def _psf_call(self, ind):
-- 
2.43.0


From ec5d9a51dbb4b476859138c9c1b80d789a1d9519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 44/93] fix: PointSpreadFunction does not use cached values of
 another frequency

---
 acoular/fbeamform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 5348d6b..34eb903 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1018,7 +1018,10 @@ class PointSpreadFunction(HasStrictTraits):
         exist and global caching mode is 'readonly'.
         """
         filename = 'psf' + self.digest
-        nodename = (f'Hz_{self.freq:.2f}').replace('.', '_')
+        freq = f'{self.freq:.2f}'
+        if float(freq) != self.freq:  # frequencies that differ by less than 0.01 Hz
+            freq = repr(self.freq)
+        nodename = f'Hz_{freq}'.replace('.', '_')
         #        print("get cachefile:", filename)
         H5cache.get_cache_file(self, filename)
         if not self.h5f:  # only happens in case of global caching readonly
-- 
2.43.0


From 4c3bb1f5558fd0b2977f3ca147fd406edace1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 45/93] fix: PowerSpectra does not write into the cache file in
 caching mode readonly

---
 acoular/spectra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 94676ff..4608da1 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -525,10 +525,13 @@ class PowerSpectra(BaseSpectra):
             self.h5f.create_compressible_array(nodename, shape, precision)
 
         ac = self.h5f.get_data_by_reference(nodename)
+        if config.global_caching == 'readonly':
+            ac = ac[:]  # so never write back to disk
         if ac[:].sum() == 0:  # only initialized
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
-            self.h5f.flush()
+            if config.global_caching != 'readonly':
+                self.h5f.flush()
         return ac
 
     @property_depends_on(['digest'])
-- 
2.43.0


From 02cf4e1f57034fc0a3660d7619ae77ae06f6f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 46/93] fix: PowerSpectra delivers the cross spectral matrix in
 the configured precision

---
 acoular/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 4608da1..eee6194 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -398,7 +398,7 @@ class PowerSpectra(BaseSpectra):
         [fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
         csm = csm_lower + csm_upper
         # onesided spectrum: multiplication by 2.0=sqrt(2)^2
-        return csm * (2.0 / self.block_size / weight / self.num_blocks)
+        return (csm * (2.0 / self.block_size / weight / self.num_blocks)).astype(self.precision)
 
     def calc_ev(self):
         """
-- 
2.43.0


From 80b92520528b44752dcc2af1197dbc43ded149c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:14 +0000
Subject: [PATCH 47/93] fix: PointSpreadFunction with h5py cache works for
 grid_indices in any order

---
 acoular/fbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 34eb903..452072d 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1073,10 +1073,10 @@ class PointSpreadFunction(HasStrictTraits):
                         return ac[:, self.grid_indices]
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, self.grid_indices]
+                    return ac[:][:, self.grid_indices]
                 #                else:
                 #                    print("cached results are complete! return.")
-                return ac[:, self.grid_indices]
+                return ac[:][:, self.grid_indices]
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
-- 
2.43.0


From dbeffc418d23a6ffcff9989e408a9fc8b22f54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 48/93] fix: digests take all values of arrays into account

---
 acoular/internal.py | 55 ++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index f29480d..ababa86 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -1,25 +1,30 @@
-# ------------------------------------------------------------------------------
-# Copyright (c) Acoular Development Team.
-# ------------------------------------------------------------------------------
-
-from hashlib import md5
-
-
-def digest(obj, name='digest'):
-    str_ = [str(obj.__class__).encode('UTF-8')]
-    for do_ in obj.trait(name).depends_on:
-        vobj = obj
-        try:
-            for i in do_.split('.'):
-                vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
-            str_.append(str(vobj).encode('UTF-8'))
-        except:  # noqa: E722
-            pass
-    return '_' + md5(b''.join(str_)).hexdigest()
-
-
-def ldigest(obj_list):
-    str_ = []
-    for i in obj_list:
-        str_.append(str(i.digest).encode('UTF-8'))
-    return '_' + md5(b''.join(str_)).hexdigest()
+# ------------------------------------------------------------------------------
+# Copyright (c) Acoular Development Team.
+# ------------------------------------------------------------------------------
+
+from hashlib import md5
+
+from numpy import ndarray
+
+
+def digest(obj, name='digest'):
+    str_ = [str(obj.__class__).encode('UTF-8')]
+    for do_ in obj.trait(name).depends_on:
+        vobj = obj
+        try:
+            for i in do_.split('.'):
+                vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
+            if isinstance(vobj, ndarray):  # the text of an array is rounded and shortened
+                str_.append(f'{vobj.shape}{vobj.dtype}'.encode() + vobj.tobytes())
+            else:
+                str_.append(str(vobj).encode('UTF-8'))
+        except:  # noqa: E722
+            pass
+    return '_' + md5(b''.join(str_)).hexdigest()
+
+
+def ldigest(obj_list):
+    str_ = []
+    for i in obj_list:
+        str_.append(str(i.digest).encode('UTF-8'))
+    return '_' + md5(b''.join(str_)).hexdigest()
-- 
2.43.0


From 5805b02f5ec9c55dd255c0c663d8a8062030fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 49/93] fix: digest of TimeSamples identifies data and
 sample_freq

---
 acoular/sources.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 91341e5..7ff8fa0 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -27,6 +27,7 @@ Measured multichannel data management and simulation of acoustic sources.
 # imports from other packages
 
 import contextlib
+from hashlib import md5
 from os import path
 from warnings import warn
 
@@ -43,6 +44,7 @@ from numpy import (
     empty,
     int64,
     mod,
+    ndarray,
     newaxis,
     ones,
     pi,
@@ -397,14 +399,17 @@ class TimeSamples(SamplesGenerator):
     metadata = Dict(desc='metadata contained in .h5 file')
 
     # Checksum over first data entries of all channels
-    _datachecksum = Property()
+    _datachecksum = Property(depends_on=['data'])
 
     #: A unique identifier for the samples, based on its properties. (read-only)
     digest = Property(
         depends_on=['basename', 'calib.digest', '_datachecksum', 'sample_freq', 'num_channels', 'num_samples']
     )
 
+    @cached_property
     def _get__datachecksum(self):
+        if isinstance(self.data, ndarray):
+            return md5(f'{self.data.shape}{self.data.dtype}'.encode() + self.data.tobytes()).hexdigest()
         return self.data[0, :].sum()
 
     @cached_property
@@ -609,7 +614,17 @@ class MaskedTimeSamples(TimeSamples):
     )
 
     #: A unique identifier for the samples, based on its properties. (read-only)
-    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum'])
+    digest = Property(
+        depends_on=[
+            'basename',
+            'start',
+            'stop',
+            'calib.digest',
+            'invalid_channels',
+            '_datachecksum',
+            'sample_freq',
+        ]
+    )
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 2da88e459bccb535dac5f1039d4ddcbe6095ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 50/93] fix: digests of sources depend on all parameters of the
 sources

---
 acoular/sources.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index 7ff8fa0..b1ee8b9 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -998,6 +998,7 @@ class SphericalHarmonicSource(PointSource):
             'up',
             'alpha',
             'lOrder',
+            'direction',
             'prepadding',
         ],
     )
@@ -1133,6 +1134,7 @@ class MovingPointSource(PointSource):
             'start_t',
             'start',
             'trajectory.digest',
+            'up',
             'prepadding',
         ],
     )
@@ -1399,6 +1401,9 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             'start',
             'up',
             'direction',
+            'trajectory.digest',
+            'conv_amp',
+            'rvec',
         ],
     )
 
@@ -1645,6 +1650,8 @@ class LineSource(PointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
             'source_strength',
             'coherence',
         ],
@@ -1761,6 +1768,13 @@ class MovingLineSource(LineSource, MovingPointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
+            'source_strength',
+            'coherence',
+            'trajectory.digest',
+            'conv_amp',
+            'rvec',
         ],
     )
 
-- 
2.43.0


From 3a8153f3276c392870b546c4bda988c08fe75772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 51/93] fix: digest of MergeGrid does not depend on memory
 addresses

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 78ae40b..ee40b35 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1050,7 +1050,7 @@ class MergeGrid(Grid):
     subgrids = Property(desc='names of subgrids for each point')
 
     #: A unique identifier for the grid, based on its properties. (read-only)
-    digest = Property(depends_on=['grids', 'grid_digest'])
+    digest = Property(depends_on=['grid_digest'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 9c25d0376b0689239ded7feb1ca3f227b3be7e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 52/93] fix: digest of Calib depends on invalid_channels

---
 acoular/calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index 06a57e1..6ac37ba 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -98,7 +98,7 @@ class Calib(InOut):
     channels = Property(depends_on=['invalid_channels', 'num_mics'], desc='channel mask')
 
     # Internal identifier
-    digest = Property(depends_on=['source.digest', 'data'])
+    digest = Property(depends_on=['source.digest', 'data', 'invalid_channels'])
 
     @on_trait_change('data')
     def set_num_mics(self):
-- 
2.43.0


From 0161b6b4546adf6257d058eff7078d86d9255414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 53/93] fix: digest of PowerSpectraImport identifies the cross
 spectral matrix

---
 acoular/spectra.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index eee6194..5877f0d 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -24,12 +24,10 @@ from numpy import (
     fill_diagonal,
     hamming,
     hanning,
-    imag,
     linalg,
     ndarray,
     newaxis,
     ones,
-    real,
     searchsorted,
     sum,  # noqa A004
     zeros,
@@ -667,7 +665,7 @@ class PowerSpectraImport(PowerSpectra):
     _ind_high = Union(None, Int, desc='index of highest frequency line')
 
     #: A unique identifier for the spectra, based on its properties. (read-only)
-    digest = Property(depends_on=['_csmsum'])
+    digest = Property(depends_on=['_csm', 'frequencies'])
 
     #: Name of the cache file without extension. (read-only)
     basename = Property(depends_on=['digest'], desc='basename for cache file')
@@ -675,9 +673,6 @@ class PowerSpectraImport(PowerSpectra):
     # Shadow trait for storing the CSM, for internal use only.
     _csm = CArray()
 
-    # Checksum for the CSM to trigger digest calculation, for internal use only.
-    _csmsum = Float()
-
     def _get_basename(self):
         return 'csm_import_' + self.digest
 
@@ -696,7 +691,6 @@ class PowerSpectraImport(PowerSpectra):
             msg = 'The cross spectral matrix must have the following shape: \
             (number of frequencies, num_channels, num_channels)!'
             raise ValueError(msg)
-        self._csmsum = real(self._csm).sum() + (imag(self._csm) ** 2).sum()  # to trigger new digest creation
         self._csm = csm
 
     @property_depends_on(['digest'])
-- 
2.43.0


From e14a59b63480b6c9bff48f8274bbaf1c8b7f08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:55 +0000
Subject: [PATCH 54/93] fix: digests do not tell the default value of a float
 parameter from the same value assigned

---
 acoular/fbeamform.py | 4 ++--
 acoular/grids.py     | 2 +-
 acoular/sources.py   | 2 +-
 acoular/tprocess.py  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 452072d..e0449ee 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -703,7 +703,7 @@ class BeamformerFunctional(BeamformerBase):
     """
 
     #: Functional exponent, defaults to 1 (= Classic Beamforming).
-    gamma = Float(1, desc='functional exponent')
+    gamma = Float(1.0, desc='functional exponent')
 
     #: Functional Beamforming is only well defined for full CSM
     r_diag = Enum(False, desc='False, as Functional Beamformer is only well defined for the full CSM')
@@ -2098,7 +2098,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
 
     #: Norm to consider for the regularization in InverseIRLS and Suzuki methods
     #: defaults to L-1 Norm
-    pnorm = Float(1, desc='Norm for regularization')
+    pnorm = Float(1.0, desc='Norm for regularization')
 
     #: Beta - Fraction of sources maintained after each iteration
     #: defaults to 0.9
diff --git a/acoular/grids.py b/acoular/grids.py
index ee40b35..e6654bd 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -967,7 +967,7 @@ class LineGrid(Grid):
     direction = Tuple((1.0, 0.0, 0.0), desc='Line orientation ')
 
     #: Total length of the line. Default is ``1.0``.
-    length = Float(1, desc='length of the line source')
+    length = Float(1.0, desc='length of the line source')
 
     #: Number of grid points along the line. Default is ``1``.
     num_points = Int(1, desc='length of the line source')
diff --git a/acoular/sources.py b/acoular/sources.py
index b1ee8b9..44b9cee 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1628,7 +1628,7 @@ class LineSource(PointSource):
     direction = Tuple((0.0, 0.0, 1.0), desc='Line orientation ')
 
     #: Vector to define the length of the line source in meters. Default is ``1.0``.
-    length = Float(1, desc='length of the line source')
+    length = Float(1.0, desc='length of the line source')
 
     #: Number of monopole sources in the line source. Default is ``1``.
     num_sources = Int(1)
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 838668c..c9c7837 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -543,7 +543,7 @@ class AngleTracker(MaskedTimeOut):
     interp_points = Int(4, desc='Points of interpolation used for spline')
 
     # rotation angle in radians for first trigger position
-    start_angle = Float(0, desc='rotation angle for trigger position')
+    start_angle = Float(0.0, desc='rotation angle for trigger position')
 
     # revolutions per minute for each sample, read-only
     rpm = Property(depends_on=['digest'], desc='revolutions per minute for each sample')
-- 
2.43.0


From eb922314e0151c24013662c43074dec061541e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 55/93] fix: GeneralFlowEnvironment does not use interpolators
 of another flow or region

---
 acoular/environments.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index f179e06..2f3924e 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -21,6 +21,7 @@ Implements acoustic environments with and without flow.
 """
 
 from abc import abstractmethod
+from hashlib import md5
 from warnings import warn
 
 import numba as nb
@@ -836,16 +837,15 @@ class GeneralFlowEnvironment(Environment):
         if isscalar(mpos):
             mpos = array((0, 0, 0), dtype=float32)[:, newaxis]
 
+        roi = gpos if self.roi is None else self.roi
+        roi_key = md5(roi.tobytes()).hexdigest()
         gt = empty((gpos.shape[-1], mpos.shape[-1]))
         for micnum, x0 in enumerate(mpos.T):
-            key = x0.tobytes()  # make array hashable
+            key = (x0.tobytes(), roi_key, self.digest)  # make arrays hashable
             try:
                 li = self.idict[key]  # fetch stored interpolator
             except KeyError:
                 # if interpolator doesn't exist, construct it
-                roi = gpos
-                if self.roi is not None:
-                    roi = self.roi
                 li = self.get_interpolator(roi, x0)
                 self.idict[key] = li
             # do the interpolation
-- 
2.43.0


From 1cd89a0a08d0c434c84a0167d0cc0ba3bc824aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 56/93] fix: SteeringVector.r0 works without reference distance

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index e0449ee..70f5ee9 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -207,7 +207,7 @@ class SteeringVector(HasStrictTraits):
         if isscalar(self.ref):
             if self.ref > 0:
                 return full((self.grid.size,), self.ref)
-            return self.env._r(self.grid.pos())
+            return self.env._r(self.grid.pos)
         return self.env._r(self.grid.pos, self.ref[:, newaxis])
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
-- 
2.43.0


From 9118760bb06951dff5f3bfd203b532ab2a77bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 57/93] fix: BeamformerGridlessOrth does not change its shgo
 options

---
 acoular/fbeamform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 70f5ee9..05916d3 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -34,6 +34,7 @@
 # imports from other packages
 
 import warnings
+from copy import deepcopy
 from warnings import warn
 
 # check for sklearn version to account for incompatible behavior
@@ -2457,7 +2458,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
                     )[0][0]  # noqa: B023
 
                 # simplical global homotopy optimizer
-                oR = shgo(func, self.bounds, **shgo_opts)
+                oR = shgo(func, self.bounds, **deepcopy(shgo_opts))  # shgo changes its options
                 # index in grid
                 i1 = i * self.n + j
                 # store result for position
-- 
2.43.0


From aa84117f8f76fe708f1ad9f505479bd5c2f6a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 58/93] fix: digest of GenericSignalGenerator depends on
 num_samples

---
 acoular/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/signals.py b/acoular/signals.py
index 9c04ec9..8843710 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -619,7 +619,7 @@ class GenericSignalGenerator(SignalGenerator):
 
     #: A unique checksum identifier based on the object properties. (read-only)
     digest = Property(
-        depends_on=['source.digest', 'loop_signal', 'num_samples', 'amplitude'],
+        depends_on=['source.digest', 'loop_signal', '_num_samples', 'amplitude'],
     )
 
     @cached_property
-- 
2.43.0


From 89d9cea2f3c10be8af9e420186e5f72e44cfe245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 59/93] fix: frequency range and indices of PowerSpectra follow
 the last assignment

---
 acoular/spectra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 5877f0d..fa8cdff 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -290,7 +290,7 @@ class PowerSpectra(BaseSpectra):
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-            if self._ind_high is None:
+            if self.ind_high is None:
                 return array([fftfreq[self.ind_low], None])
             return fftfreq[[self.ind_low, self.ind_high]]
         return None
@@ -300,7 +300,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc'])
+    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc', '_index_set_last'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -309,7 +309,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc'])
+    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc', '_index_set_last'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-- 
2.43.0


From bee7558ed681445a05fa06d5c753ffa9d40e170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 60/93] fix: frequency range and indices of PowerSpectraImport
 follow its frequencies

---
 acoular/spectra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index fa8cdff..3dd0dcb 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -286,7 +286,7 @@ class PowerSpectra(BaseSpectra):
     def _get_num_blocks(self):
         return self.overlap_ * self.source.num_samples / self.block_size - self.overlap_ + 1
 
-    @property_depends_on(['source.sample_freq', 'block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['digest', 'source.sample_freq', 'block_size', 'ind_low', 'ind_high'])
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -300,7 +300,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc', '_index_set_last'])
+    @property_depends_on(['digest', 'source.sample_freq', 'block_size', '_ind_low', '_freqlc', '_index_set_last'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -309,7 +309,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc', '_index_set_last'])
+    @property_depends_on(['digest', 'source.sample_freq', 'block_size', '_ind_high', '_freqhc', '_index_set_last'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -330,7 +330,7 @@ class PowerSpectra(BaseSpectra):
         self._index_set_last = True
         self._ind_low = ind_low
 
-    @property_depends_on(['block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['digest', 'block_size', 'ind_low', 'ind_high'])
     def _get_indices(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-- 
2.43.0


From 0d6b59248fd8f6428785f6b5b317e7ee86e0bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:52 +0000
Subject: [PATCH 61/93] fix: TimeSamples loads the data of a file with the same
 name in another directory

---
 acoular/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 44b9cee..373a324 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -420,7 +420,7 @@ class TimeSamples(SamplesGenerator):
     def _get_basename(self):
         return get_file_basename(self.file)
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def _load_data(self):
         # Open the .h5 file and set attributes.
         if self.h5f is not None:
@@ -648,7 +648,7 @@ class MaskedTimeSamples(TimeSamples):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
         return sli[1] - sli[0]
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def _load_data(self):
         # Open the .h5 file and set attributes.
         if not path.isfile(self.file):
-- 
2.43.0


From db1c479d60f248f78a878b63756b54d2453b2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 62/93] fix: digests of spatial interpolators depend on all
 parameters of the interpolation

---
 acoular/tprocess.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index c9c7837..3d2e2f7 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -747,6 +747,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1177,6 +1179,8 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1232,6 +1236,8 @@ class SpatialInterpolatorConstantRotation(SpatialInterpolator):  # pragma: no co
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
             'rotational_speed',
         ],
     )
-- 
2.43.0


From 671c5050fb360e51e9fa6a9d85a9ca4d2afe810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 63/93] fix: inverse distance interpolation works for any
 number of virtual microphones

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 3d2e2f7..0f90106 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1083,7 +1083,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                     newPoint3_M = append(newPoint2_M, zeros([1, self.num_channels]), axis=0)
                     newPointCart = cylToCart(newPoint3_M)
                     for ind in arange(len(newPoint[:, 0])):
-                        newPoint_Rep = tile(newPointCart[:, ind], (len(newPoint[:, 0]), 1)).T
+                        newPoint_Rep = tile(newPointCart[:, ind], (newCoordCart.shape[1], 1)).T
                         subtract = newPoint_Rep - newCoordCart
                         normDistance = norm(subtract, axis=0)
                         index_norm = argsort(normDistance)[: self.num_IDW]
-- 
2.43.0


From 0538c2380e2c844125cd5a6fa3b2a5caec9a0acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:08 +0000
Subject: [PATCH 64/93] fix: moving sources find the emission time for
 microphones anywhere

---
 acoular/sources.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 373a324..c48482c 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1198,12 +1198,12 @@ class MovingPointSource(PointSource):
             # Newton-Rhapson iteration
             while abs(eps).max() > epslim and j < 100:
                 loc = array(tr.location(te))
-                rm = loc - m.pos  # distance vectors to microphones
-                rm = sqrt((rm * rm).sum(0))  # absolute distance
+                rv = loc - m.pos  # distance vectors to microphones
+                rm = sqrt((rv * rv).sum(0))  # absolute distance
                 loc /= sqrt((loc * loc).sum(0))  # distance unit vector
                 der = array(tr.location(te, der=1))
                 Mr = (der * loc).sum(0) / c0  # radial Mach number
-                eps = (te + rm / c0 - t) / (1 + Mr)  # discrepancy in time
+                eps = (te + rm / c0 - t) / (1 + (der * rv).sum(0) / rm / c0)  # discrepancy in time
                 te -= eps
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
@@ -1461,12 +1461,12 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             xs = array(self.trajectory.location(te))
             loc = xs.copy()
             loc += direction
-            rm = loc - self.mics.pos  # distance vectors to microphones
-            rm = sqrt((rm * rm).sum(0))  # absolute distance
+            rv = loc - self.mics.pos  # distance vectors to microphones
+            rm = sqrt((rv * rv).sum(0))  # absolute distance
             loc /= sqrt((loc * loc).sum(0))  # distance unit vector
             der = array(self.trajectory.location(te, der=1))
             Mr = (der * loc).sum(0) / self.env.c  # radial Mach number
-            eps = (te + rm / self.env.c - t) / (1 + Mr)  # discrepancy in time
+            eps = (te + rm / self.env.c - t) / (1 + (der * rv).sum(0) / rm / self.env.c)  # discrepancy in time
             te -= eps
             j += 1  # iteration count
         return te, rm, Mr, xs
@@ -1886,12 +1886,12 @@ class MovingLineSource(LineSource, MovingPointSource):
             xs = array(self.trajectory.location(te))
             loc = xs.copy()
             loc += direction
-            rm = loc - self.mics.pos  # distance vectors to microphones
-            rm = sqrt((rm * rm).sum(0))  # absolute distance
+            rv = loc - self.mics.pos  # distance vectors to microphones
+            rm = sqrt((rv * rv).sum(0))  # absolute distance
             loc /= sqrt((loc * loc).sum(0))  # distance unit vector
             der = array(self.trajectory.location(te, der=1))
             Mr = (der * loc).sum(0) / self.env.c  # radial Mach number
-            eps = (te + rm / self.env.c - t) / (1 + Mr)  # discrepancy in time
+            eps = (te + rm / self.env.c - t) / (1 + (der * rv).sum(0) / rm / self.env.c)  # discrepancy in time
             te -= eps
             j += 1  # iteration count
         return te, rm, Mr, xs
-- 
2.43.0


From c3e2b6d294f1141a35b4c9517330fe49452f44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:08 +0000
Subject: [PATCH 65/93] fix: moving sources do not count start twice

---
 acoular/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index c48482c..ed4d4f8 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1208,7 +1208,7 @@ class MovingPointSource(PointSource):
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
             # emission time relative to start time
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
             try:
@@ -1574,7 +1574,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             rm1 = self.env._r(loc + diff, mpos)
             rm2 = self.env._r(loc - diff, mpos)
 
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
                 rm1 *= (1 - Mr) ** 2  # assume that Mr is the same for both poles
@@ -1960,7 +1960,7 @@ class MovingLineSource(LineSource, MovingPointSource):
                 loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
-                inds[:, s] = (te - self.start_t + self.start) * self.sample_freq
+                inds[:, s] = (te - self.start_t) * self.sample_freq
 
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
-- 
2.43.0


From 2c1e5e94df72c21bb5a60e2aabe1448feb26adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 66/93] fix: convective amplification applies to every source
 of a moving line

---
 acoular/sources.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index ed4d4f8..fef9ffe 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1961,10 +1961,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
                 inds[:, s] = (te - self.start_t) * self.sample_freq
-
-            if self.conv_amp:
-                rm *= (1 - Mr) ** 2
-                rms[:, s] *= (1 - Mr) ** 2  # assume that Mr is the same
+                if self.conv_amp:
+                    rms[:, s] *= (1 - Mr) ** 2
             try:
                 # subtract the second signal b/c of phase inversion
                 for s in range(self.num_sources):
-- 
2.43.0


From cada450294fb85f8838960319082358073ef5775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:41 +0000
Subject: [PATCH 67/93] fix: trajectory beamformers respect the reference
 position of the steering vector

---
 acoular/tbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 5b93486..3993795 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -353,7 +353,9 @@ class BeamformerTimeTraj(BeamformerTime):
     def get_r0(self, tpos):
         if isscalar(self.steer.ref) and self.steer.ref > 0:
             return self.steer.ref  # full((self.steer.grid.size,), self.steer.ref)
-        return self.steer.env._r(tpos)
+        if isscalar(self.steer.ref):
+            return self.steer.env._r(tpos)
+        return self.steer.env._r(tpos, self.steer.ref[:, newaxis])
 
     def result(self, num=2048):
         """Python generator that yields the time-domain beamformer output.
-- 
2.43.0


From 9bf4402b2c46d4aa9209d443ba86f43cd8e9e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 68/93] fix: convex sectors without border contain all inner
 points

---
 acoular/grids.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index e6654bd..57a0aa2 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -56,7 +56,7 @@ from numpy import (
 from scipy.linalg import norm
 
 # from matplotlib.path import Path
-from scipy.spatial import Delaunay
+from scipy.spatial import ConvexHull, Delaunay
 from traits.api import (
     ABCHasStrictTraits,
     Bool,
@@ -131,7 +131,8 @@ def in_hull(p, hull, border=True, tol=0):
 
     if border:
         return hull.find_simplex(p, tol=tol) >= 0
-    return hull.find_simplex(p, tol=tol) > 0
+    facets = ConvexHull(hull.points).equations
+    return (asarray(p) @ facets[:, :-1].T + facets[:, -1] < -tol).all(axis=-1)
 
 
 def _det(xvert, yvert):
-- 
2.43.0


From 3b5dc38cab60e8908768518f87cc6b7f2a17e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 69/93] fix: polygonal and convex sectors find the grid point
 that is nearest to their center

---
 acoular/grids.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 57a0aa2..d2403f0 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1467,7 +1467,8 @@ class PolySector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)
+            center = array(self.edges).reshape(-1, 2).mean(0)
+            dr2 = (pos[0, :] - center[0]) ** 2 + (pos[1, :] - center[1]) ** 2
             inds[argmin(dr2)] = True
 
         return inds
@@ -1525,7 +1526,8 @@ class ConvexSector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            center = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            dr2 = (pos[0, :] - center[0]) ** 2 + (pos[1, :] - center[1]) ** 2
             inds[argmin(dr2)] = True
 
         return inds
-- 
2.43.0


From 64262382d41af2594d7dcdea0cdb7d8f3270b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 70/93] fix: RectSector3D finds the nearest grid point in three
 dimensions

---
 acoular/grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index d2403f0..7341c39 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1335,7 +1335,8 @@ class RectSector3D(RectSector):
         if ~inds.any() and self.default_nearest:
             x = (xmin + xmax) / 2.0
             y = (ymin + ymax) / 2.0
-            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
+            z = (zmin + zmax) / 2.0
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2 + (pos[2, :] - z) ** 2
             inds[argmin(dr2)] = True
 
         return inds.astype(bool)
-- 
2.43.0


From fb9735932cfd7e20bda58e8205884123ce614839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 71/93] fix: LineGrid with a single point

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 7341c39..6d40e45 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1000,7 +1000,7 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
-        dist = self.length / (self.num_points - 1)
+        dist = self.length / max(self.num_points - 1, 1)
         loc = array(self.loc, dtype=float).reshape((3, 1))
         direc_n = array(self.direction) / norm(self.direction)
         pos = zeros((self.num_points, 3))
-- 
2.43.0


From e3060ee4b692559bed1fc78286c9511693252847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 72/93] fix: shapes of LineGrid and MergeGrid are tuples

---
 acoular/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 6d40e45..77b35fa 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -996,7 +996,7 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
@@ -1067,7 +1067,7 @@ class MergeGrid(Grid):
 
     @property_depends_on(['digest'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['digest'])
     def _get_subgrids(self):
-- 
2.43.0


From 1e131c5e15813b5430241d6f154c27bf682cecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 73/93] fix: subgrids of a MergeGrid belong to its points

---
 acoular/grids.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 77b35fa..40456ee 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1074,14 +1074,18 @@ class MergeGrid(Grid):
         subgrids = zeros((1, 0), dtype=str)
         for grid in self.grids:
             subgrids = append(subgrids, tile(grid.__class__.__name__ + grid.digest, grid.size))
-        return subgrids[:, newaxis].T
+        ind = unique(self._get_all_pos(), axis=1, return_index=True)[1]
+        return subgrids[newaxis, ind]
 
     @property_depends_on(['digest'])
     def _get_pos(self):
+        return unique(self._get_all_pos(), axis=1)
+
+    def _get_all_pos(self):
         bpos = zeros((3, 0))
         for grid in self.grids:
             bpos = append(bpos, grid.pos, axis=1)
-        return unique(bpos, axis=1)
+        return bpos
 
 
 class Sector(ABCHasStrictTraits):
-- 
2.43.0


From a249106855894d42f49b8e312fecf86fb2aee1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:21 +0000
Subject: [PATCH 74/93] fix: index of rectangular grids whose extent does not
 fit the increment

---
 acoular/grids.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 40456ee..a9134ef 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -478,8 +478,9 @@ class RectGrid(Grid):
         if y < self.y_min or y > self.y_max:
             msg = 'y-value out of range'
             raise ValueError(msg)
-        xi = int((x - self.x_min) / self.increment + 0.5)
-        yi = int((y - self.y_min) / self.increment + 0.5)
+        # the distance of the points differs from the increment if that does not fit
+        xi = int((x - self.x_min) / (self.x_max - self.x_min) * (self.nxsteps - 1) + 0.5) if self.nxsteps > 1 else 0
+        yi = int((y - self.y_min) / (self.y_max - self.y_min) * (self.nysteps - 1) + 0.5) if self.nysteps > 1 else 0
         return xi, yi
 
     def indices(self, *r):
@@ -705,13 +706,10 @@ class RectGrid3D(RectGrid):
         if z < self.z_min or z > self.z_max:
             msg = f'z-value out of range {z:f} ({self.z_min:f}, {self.z_max:f})'
             raise ValueError(msg)
-        if isscalar(self.increment):
-            incx = incy = incz = self.increment
-        else:
-            incx, incy, incz = self.increment
-        xi = int(round((x - self.x_min) / incx))
-        yi = int(round((y - self.y_min) / incy))
-        zi = int(round((z - self.z_min) / incz))
+        # the distance of the points differs from the increment if that does not fit
+        xi = int(round((x - self.x_min) / (self.x_max - self.x_min) * (self.nxsteps - 1))) if self.nxsteps > 1 else 0
+        yi = int(round((y - self.y_min) / (self.y_max - self.y_min) * (self.nysteps - 1))) if self.nysteps > 1 else 0
+        zi = int(round((z - self.z_min) / (self.z_max - self.z_min) * (self.nzsteps - 1))) if self.nzsteps > 1 else 0
         return xi, yi, zi
 
     def indices(self, x1, y1, z1, x2, y2, z2):
-- 
2.43.0


From 57a35dcff5dfbb39555dbd21c04cb30b8e03ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:45 +0000
Subject: [PATCH 75/93] fix: frequency lines of beamforming results by negative
 numbers and lists

---
 acoular/fbeamform.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 05916d3..fb2e653 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -44,6 +44,7 @@ from numpy import (
     arange,
     argsort,
     array,
+    atleast_1d,
     atleast_2d,
     clip,
     delete,
@@ -58,7 +59,6 @@ from numpy import (
     hstack,
     index_exp,
     inf,
-    integer,
     isscalar,
     log10,
     ndarray,
@@ -291,11 +291,9 @@ class LazyBfResult:
 
     def __getitem__(self, key):
         # 'intelligent' [] operator checks if results are available and triggers calculation
-        sl = index_exp[key][0]
-        if isinstance(sl, (int, integer)):
-            sl = slice(sl, sl + 1)
+        ind = atleast_1d(arange(self.bf._numfreq)[index_exp[key][0]])
         # indices which are missing
-        missingind = arange(*sl.indices(self.bf._numfreq))[self.bf._fr[sl] == 0]
+        missingind = ind[self.bf._fr[:][ind] == 0]
         # calc if needed
         if missingind.size:
             self.bf._calc(missingind)
-- 
2.43.0


From 36790ff9371b8bc14b4371fff8aae2b03c7fac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:02 +0000
Subject: [PATCH 76/93] fix: integrate beamforming results that were not
 accessed before

---
 acoular/fbeamform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index fb2e653..84ae3c0 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -658,6 +658,7 @@ class BeamformerBase(HasStrictTraits):
                 msg,
             )
         gshape = self.steer.grid.shape
+        res = self.result  # also updates the frequencies
         if num == 0 or frange is None:
             if frange is None:
                 ind_low = self.freq_data.ind_low
@@ -681,7 +682,7 @@ class BeamformerBase(HasStrictTraits):
                 )
             h = zeros(self._numfreq, dtype=float)
             sl = slice(*irange)
-            r = self.result[sl]
+            r = res[sl]
             for i in range(*irange):
                 # we do this per frequency because r might not have fancy indexing
                 h[i] = r[i - sl.start].reshape(gshape)[ind].sum()
-- 
2.43.0


From a1bee908d1a9392268ebfe1f53e177552e0d30bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:02 +0000
Subject: [PATCH 77/93] fix: functional beamforming with singular cross
 spectral matrix

---
 acoular/fbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 84ae3c0..7a2b076 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -771,7 +771,9 @@ class BeamformerFunctional(BeamformerBase):
                 indNegSign = sign(beamformerOutput) < 0
                 beamformerOutput[indNegSign] = 0.0
             else:
-                eva = array(self.freq_data.eva[i], dtype='float64') ** (1.0 / self.gamma)
+                eva = array(self.freq_data.eva[i], dtype='float64')
+                eva[eva < 0] = 0.0  # eigenvalues that are zero except for rounding errors
+                eva **= 1.0 / self.gamma
                 eve = array(self.freq_data.eve[i], dtype='complex128')
                 beamformerOutput, steerNorm = beamformerFreq(
                     param_steer_type,
-- 
2.43.0


From 86bbac175662de09b7adca53c9d880ebd76ac45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:02 +0000
Subject: [PATCH 78/93] fix: eigenvalue number of BeamformerEig follows the
 number of microphones

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 7a2b076..99b4dd1 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -856,7 +856,7 @@ class BeamformerEig(BeamformerBase):
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on(['steer.mics', 'n'])
+    @property_depends_on(['steer.digest', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
-- 
2.43.0


From 646ed009d2bfc9851d1948d9d2c6708e41822300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:27 +0000
Subject: [PATCH 79/93] fix: CLEAN-SC at frequencies without signal

---
 acoular/fbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 99b4dd1..c58db9f 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1517,10 +1517,12 @@ class BeamformerCleansc(BeamformerBase):
             # h = self.steer._beamformerCall(f[i], self.r_diag, normfactor, (csm,))[0]
             h = beamformerFreq(param_steer_type, self.r_diag, normfactor, steer_vector(f[i]), csm)[0]
             # CLEANSC Iteration
-            result *= 0.0
+            result[:] = 0.0
             for j in range(J):
                 xi_max = h.argmax()  # index of maximum
                 powers[j] = hmax = h[xi_max]  # maximum
+                if hmax <= 0:  # nothing left
+                    break
                 result[xi_max] += self.damp * hmax
                 if j > self.stopn and hmax > powers[j - self.stopn]:
                     break
-- 
2.43.0


From 6eed455a4c4170c56c2450d337f1554e3f0881fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:27 +0000
Subject: [PATCH 80/93] fix: orthogonal beamforming does not add to results of
 an interrupted calculation

---
 acoular/fbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index c58db9f..76cae94 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1446,6 +1446,7 @@ class BeamformerOrth(BeamformerBase):
         for i in ind:
             eva = array(self.freq_data.eva[i], dtype='float64')
             eve = array(self.freq_data.eve[i], dtype='complex128')
+            result = zeros(self.steer.grid.size)
             for n in self.eva_list:
                 beamformerOutput = beamformerFreq(
                     param_steer_type,
@@ -1454,7 +1455,8 @@ class BeamformerOrth(BeamformerBase):
                     steer_vector(f[i]),
                     (ones(1), eve[:, n].reshape((-1, 1))),
                 )[0]
-                self._ac[i, beamformerOutput.argmax()] += eva[n] / num_channels
+                result[beamformerOutput.argmax()] += eva[n] / num_channels
+            self._ac[i] = result
             self._fr[i] = 1
 
 
-- 
2.43.0


From ac94cb79cdbaafdd5dd89feb34d8680d87b883f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:18 +0000
Subject: [PATCH 81/93] fix: point spread functions of derived steering vectors
 one by one

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 76cae94..49f0735 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1102,7 +1102,7 @@ class PointSpreadFunction(HasStrictTraits):
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
-                ac[:, ind] = self._psf_call([ind])[:, 0]
+                ac[:, ind] = self._psf_call(array([ind]))[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
             ac[:] = self._psf_call(arange(self.steer.grid.size))
-- 
2.43.0


From 87601b25384a358797e7cbd6105f6f55d8b9e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:40 +0000
Subject: [PATCH 82/93] fix: setting a single frequency of an imported cross
 spectral matrix is noticed

---
 acoular/spectra.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 3dd0dcb..9ee6004 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -37,6 +37,7 @@ from traits.api import (
     ABCHasStrictTraits,
     Bool,
     CArray,
+    ComparisonMode,
     Delegate,
     Enum,
     Float,
@@ -632,7 +633,12 @@ class PowerSpectraImport(PowerSpectra):
 
     #: The frequencies included in the CSM in ascending order. Accepts list, array, or a single
     #: float value.
-    frequencies = Union(CArray, Float, desc='frequencies included in the cross-spectral matrix')
+    frequencies = Union(
+        CArray,
+        Float,
+        desc='frequencies included in the cross-spectral matrix',
+        comparison_mode=ComparisonMode.identity,  # an empty array compares equal to any single frequency
+    )
 
     #: Number of time data channels, inferred from the shape of the CSM.
     num_channels = Property(depends_on=['digest'])
-- 
2.43.0


From 5e0d1308ef278a00fd08f00917e41288b36b2ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:40 +0000
Subject: [PATCH 83/93] fix: integrate results of beamformers with adaptive
 grid

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 49f0735..214b459 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2336,8 +2336,8 @@ class BeamformerAdaptiveGrid(BeamformerBase, Grid):
                 msg,
             )
 
+        r = self.result[:]  # calculates also the positions
         ind = self.subdomain(sector)
-        r = self.result
         h = zeros(r.shape[0])
         for i in range(r.shape[0]):
             h[i] = r[i][ind].sum()
-- 
2.43.0


From 4804cfbefcf4ed72d460896af44b4117753250e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:38 +0000
Subject: [PATCH 84/93] fix: microphone geometries exported to files with
 special characters in the name

---
 acoular/microphones.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/microphones.py b/acoular/microphones.py
index d51ca00..7640e84 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -13,6 +13,7 @@ Implements support for array microphone arrangements.
 # imports from other packages
 import xml.dom.minidom
 from pathlib import Path
+from xml.sax.saxutils import quoteattr
 
 from numpy import array, average
 from scipy.spatial.distance import cdist
@@ -254,7 +255,7 @@ class MicGeom(HasStrictTraits):
         filepath = Path(filename)
         basename = filepath.stem
         with filepath.open('w', encoding='utf-8') as f:
-            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name="{basename}">\n')
+            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name={quoteattr(basename)}>\n')
             for i in range(self.pos.shape[-1]):
                 f.write(
                     f'  <pos Name="Point {i+1}" x="{self.pos[0, i]}" y="{self.pos[1, i]}" z="{self.pos[2, i]}"/>\n',
-- 
2.43.0


From a03373f466882c9bb7840f56a83196136d807174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:38 +0000
Subject: [PATCH 85/93] fix: metadata with other than ASCII characters in HDF5
 files

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 0f90106..ee9946b 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1911,7 +1911,7 @@ class WriteH5(TimeOut):
             f5h.create_new_group('metadata', '/')
             for key, value in self.metadata.items():
                 if isinstance(value, str):
-                    value = array(value, dtype='S')
+                    value = array(value.encode('utf-8'), dtype='S')
                 f5h.create_array('/metadata', key, value)
 
     def result(self, num):
-- 
2.43.0


From 8c97c179dfca9eee64702e62d75673be7827d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:38 +0000
Subject: [PATCH 86/93] fix: WriteH5.save closes its file when the source fails

---
 acoular/tprocess.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index ee9946b..f9619c6 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1900,9 +1900,11 @@ class WriteH5(TimeOut):
         """Saves source output to `*.h5` file."""
         f5h = self.get_initialized_file()
         ac = f5h.get_data_by_reference('time_data')
-        for data in self.source.result(4096):
-            f5h.append_data(ac, data)
-        f5h.close()
+        try:
+            for data in self.source.result(4096):
+                f5h.append_data(ac, data)
+        finally:
+            f5h.close()
 
     def add_metadata(self, f5h):
         """Adds metadata to .h5 file."""
-- 
2.43.0


From 73ebd52c9ea75783505474756b5ff4b96e623e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:31 +0000
Subject: [PATCH 87/93] fix: HDF5 files without samples have a checksum

---
 acoular/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index fef9ffe..f3376ef 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -410,7 +410,7 @@ class TimeSamples(SamplesGenerator):
     def _get__datachecksum(self):
         if isinstance(self.data, ndarray):
             return md5(f'{self.data.shape}{self.data.dtype}'.encode() + self.data.tobytes()).hexdigest()
-        return self.data[0, :].sum()
+        return self.data[:1].sum()
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From fa0b414ef53a9abfdeda14b8dfbdc2235a3feeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:18 +0000
Subject: [PATCH 88/93] fix: metrics without multiple assignment work on any
 grid and keep the data

---
 acoular/tools/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tools/metrics.py b/acoular/tools/metrics.py
index 0484833..539991b 100644
--- a/acoular/tools/metrics.py
+++ b/acoular/tools/metrics.py
@@ -117,13 +117,13 @@ class MetricEvaluator(HasStrictTraits):
         sectors = self.sectors
         results = empty(shape=self.target_data.shape)
         for f in range(self.target_data.shape[0]):
-            data = self.data[f]
+            data = self.data[f].copy()  # keep the data of the user
             for i in range(self.target_data.shape[1]):
                 sector = sectors[i]
                 results[f, i] = integrate(data, self.grid, sector)
                 if not self.multi_assignment:
                     indices = self.grid.subdomain(sector)
-                    data[indices] = 0  # set values to zero (can not be assigned again)
+                    data.reshape(self.grid.shape)[indices] = 0  # set values to zero (can not be assigned again)
         return results
 
     def get_overall_level_error(self):
-- 
2.43.0


From 5e49a0e4a71168a146eb5aac737fd878c6170a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:18 +0000
Subject: [PATCH 89/93] fix: metrics have a sector by default

---
 acoular/tools/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tools/metrics.py b/acoular/tools/metrics.py
index 539991b..d7b3617 100644
--- a/acoular/tools/metrics.py
+++ b/acoular/tools/metrics.py
@@ -51,7 +51,7 @@ class MetricEvaluator(HasStrictTraits):
     target_grid = Instance(Grid, desc='Grid instance that belongs to the ground-truth data')
 
     #: sector type. Currently only circular sectors are supported.
-    sector = Instance(CircSector, default=CircSector())
+    sector = Instance(CircSector, args=())
 
     #: if set True: use shrink integration area if two sources are closer
     #: than 2*r. The radius of the integration area is then set to half the
-- 
2.43.0


From a459c99b9e2a4ee8b2656f396f6d459014f9f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:50 +0000
Subject: [PATCH 90/93] fix: trajectories can be followed up to the time zero

---
 acoular/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/trajectory.py b/acoular/trajectory.py
index fca6b6f..594249d 100644
--- a/acoular/trajectory.py
+++ b/acoular/trajectory.py
@@ -190,7 +190,7 @@ class Trajectory(HasStrictTraits):
         if not delta_t:
             delta_t = t_start
             t_start, t_end = self.interval
-        if not t_end:
+        if t_end is None:
             t_end = self.interval[1]
         # all locations are fetched in one go because that is much faster further improvement could
         # be possible if interpolated locations are fetched in blocks
-- 
2.43.0


From 4f2ff987d7c8f7979c1939e7e10b11f08b27d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:24 +0000
Subject: [PATCH 91/93] fix: angle and rpm with several trigger signals per
 revolution

---
 acoular/tprocess.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index f9619c6..c4089b6 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -601,8 +601,9 @@ class AngleTracker(MaskedTimeOut):
                     peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) + 1]
                     - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
                 )
+                first = ind // peakdist
                 splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist : ind // peakdist + InterpPoints]),
+                    (range(first, first + InterpPoints), peakloc[first : first + InterpPoints]),
                     axis=0,
                 )
             # spline backwards
@@ -611,13 +612,14 @@ class AngleTracker(MaskedTimeOut):
                     peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
                     - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) - 1]
                 )
+                first = ind // peakdist - InterpPoints
                 splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist - InterpPoints : ind // peakdist]),
+                    (range(first, first + InterpPoints), peakloc[first : first + InterpPoints]),
                     axis=0,
                 )
             # calc angles and rpm
             Spline = splrep(splineData[:, :][1], splineData[:, :][0], k=3)
-            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate
+            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate / TriggerPerRevo
             self._angle[ind] = (
                 splev(ind, Spline, der=0, ext=0) * 2 * pi * rotDirection / TriggerPerRevo + self.start_angle
             ) % (2 * pi)
-- 
2.43.0


From ebe7edcde679a2044b0e49c0991258343cfc7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:49 +0000
Subject: [PATCH 92/93] fix: virtual microphones of rings and lines follow the
 coordinate transformation

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index c4089b6..55deeb6 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -833,7 +833,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             newCoord = (cartToCyl(mpos, self.Q).T)[indReorderHelp].T
 
             # and for virtual mics
-            virtNewCoord = cartToCyl(mpos_virt)
+            virtNewCoord = cartToCyl(mpos_virt, self.Q)
 
         elif self.array_dimension == '2D':  # 2d case0
             # get virtual mic projections on new coord system
-- 
2.43.0


From 4d4eab5203b9263790f8d34196e6edca5fae632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:59 +0000
Subject: [PATCH 93/93] fix: angle and rpm with varying speed

---
 acoular/tprocess.py | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 55deeb6..8e17ace 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -66,6 +66,7 @@ from numpy import (
     newaxis,
     pi,
     polymul,
+    searchsorted,
     sin,
     sinc,
     split,
@@ -595,28 +596,10 @@ class AngleTracker(MaskedTimeOut):
 
         # loop over all timesamples
         while ind < num:
-            # when starting spline forward
-            if ind < peakloc[InterpPoints]:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) + 1]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                )
-                first = ind // peakdist
-                splineData = stack(
-                    (range(first, first + InterpPoints), peakloc[first : first + InterpPoints]),
-                    axis=0,
-                )
-            # spline backwards
-            else:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) - 1]
-                )
-                first = ind // peakdist - InterpPoints
-                splineData = stack(
-                    (range(first, first + InterpPoints), peakloc[first : first + InterpPoints]),
-                    axis=0,
-                )
+            # trigger signals next to the sample
+            first = searchsorted(peakloc, ind) - InterpPoints // 2
+            first = max(0, min(first, len(peakloc) - InterpPoints))
+            splineData = stack((arange(first, first + InterpPoints), peakloc[first : first + InterpPoints]), axis=0)
             # calc angles and rpm
             Spline = splrep(splineData[:, :][1], splineData[:, :][0], k=3)
             self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate / TriggerPerRevo
-- 
2.43.0

