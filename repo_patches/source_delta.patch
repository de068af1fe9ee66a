From b4c0f8c9d6d44c72eafe8e5c3a8e2dfff400d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 001/134] fix: use one canonical order for station pairs whose
 codes are prefixes of each other

---
 src/seismic/correlate/correlate.py | 6 ++++--
 src/seismic/correlate/stream.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f58d133..9fc38bf 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1217,8 +1217,10 @@ def sort_comb_name_alphabetically(
     if not all([isinstance(arg, str) for arg in [
             network1, network2, station1, station2]]):
         raise TypeError('All arguments have to be strings.')
-    sort1 = network1 + station1 + channel1
-    sort2 = network2 + station2 + channel2
+    # separate the codes, so that codes that are prefixes of each other are
+    # sorted in the same order as in the database
+    sort1 = '.'.join([network1, station1, channel1])
+    sort2 = '.'.join([network2, station2, channel2])
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a90d595..952fa28 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1421,8 +1421,10 @@ def alphabetical_correlation(
     """
     # make sure the order is correct
     # Will do that always alphabetically sorted
-    sort1 = header1.network + header1.station + header1.channel
-    sort2 = header2.network + header2.station + header2.channel
+    # The codes have to be separated here to obtain the same order as in the
+    # database if one code is a prefix of the other
+    sort1 = '.'.join([header1.network, header1.station, header1.channel])
+    sort2 = '.'.join([header2.network, header2.station, header2.channel])
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
-- 
2.43.0


From acc71c6a101baf3a534407c132f32d6539fad237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 002/134] fix: partial wildcards in database queries do not
 have to be existing groups

---
 src/seismic/db/corr_hdf5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 724b43b..f649547 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -273,7 +273,9 @@ omitted." % path, category=UserWarning)
         # accessed path
         path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
+        # the deepest group that is not affected by any wildcard
         path = path.split('*')[0]
+        path = path[:path.rfind('/')+1]
         return all_traces_recursive(self[path], CorrStream(), pattern)
 
     def get_available_starttimes(
-- 
2.43.0


From 2a3cbd5416023ca735148f21e58d1ee1bbc2c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 003/134] fix: all masking steps are ignored when comparing
 correlation options

---
 src/seismic/db/corr_hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index f649547..210b7ac 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -525,8 +525,9 @@ def co_to_hdf5(co: dict) -> dict:
         coc['subdivision'].pop('recombine_subdivision', None)
         coc['subdivision'].pop('delete_subdivision', None)
     try:
-        [coc['preProcessing'].remove(step) for step in coc['preProcessing']
-            if 'stream_mask_at_utc' in step['function']]
+        coc['preProcessing'] = [
+            step for step in coc['preProcessing']
+            if 'stream_mask_at_utc' not in step['function']]
     except KeyError:
         pass
     return coc
-- 
2.43.0


From c2d72d08bf9d55645e6d6f54fe81b5c4a3dfe163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 004/134] fix: use the true padded length in the inverse FFT of
 correlations

---
 src/seismic/correlate/correlate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 9fc38bf..51cb2c1 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -705,7 +705,8 @@ class Correlator(object):
         ######################################
         # correlation
         csize = len(self.options['combinations'])
-        irfftsize = (fftsize-1)*2
+        # the length of the padded traces may also be odd
+        irfftsize = zmsize[1]
         sampleToSave = int(
             np.ceil(
                 corr_args['lengthToSave'] * self.sampling_rate))
@@ -755,7 +756,7 @@ class Correlator(object):
             ######################################
             # frequency domain postProcessing
             #
-            tmp = np.fft.irfft(M).real
+            tmp = np.fft.irfft(M, irfftsize).real
 
             # cut the center and do fftshift
             C[ii, :] = np.concatenate(
-- 
2.43.0


From 0592f78434fa51d50ad652e4a554fb9938f57353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 005/134] fix: zero padding is never shorter than the
 correlation length to save

---
 src/seismic/correlate/preprocessing_td.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index db8c092..0dfb556 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -475,10 +475,11 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
-        N = npts + params['sampling_rate'] * params['lengthToSave']
+        N = npts + int(np.ceil(
+            params['sampling_rate'] * params['lengthToSave']))
     elif args['type'] == 'avoidWrapFastLen':
-        N = next_fast_len(int(
-            npts + params['sampling_rate'] * params['lengthToSave']))
+        N = next_fast_len(npts + int(np.ceil(
+            params['sampling_rate'] * params['lengthToSave'])))
     else:
         raise ValueError("type '%s' of zero padding not implemented" %
                          args['type'])
-- 
2.43.0


From 95e96fc5e85eee399bcbfae8a3ffe7374bf96c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 006/134] fix: count the Nyquist frequency once when
 normalising correlations

---
 src/seismic/correlate/correlate.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 51cb2c1..c8ee6ee 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -707,6 +707,12 @@ class Correlator(object):
         csize = len(self.options['combinations'])
         # the length of the padded traces may also be odd
         irfftsize = zmsize[1]
+        # The negative frequencies are not part of B. Those exist for all
+        # frequencies but zero and the Nyquist frequency.
+        weight = np.full(fftsize, 2.)
+        weight[0] = 1.
+        if irfftsize % 2 == 0:
+            weight[-1] = 1.
         sampleToSave = int(
             np.ceil(
                 corr_args['lengthToSave'] * self.sampling_rate))
@@ -735,16 +741,12 @@ class Correlator(object):
             if corr_args['normalize_correlation']:
                 norm = (
                     np.sqrt(
-                        2.*np.sum(B[self.options[
-                            'combinations'][ii][0], :]
-                            * B[self.options['combinations'][ii][0], :].conj())
-                        - B[self.options['combinations'][ii][0], 0]**2)
+                        np.sum(weight*np.abs(B[self.options[
+                            'combinations'][ii][0], :])**2))
                     * np.sqrt(
-                        2.*np.sum(B[self.options[
-                            'combinations'][ii][1], :]
-                            * B[self.options['combinations'][ii][1], :].conj())
-                        - B[self.options['combinations'][ii][1], 0]**2)
-                    / irfftsize).real
+                        np.sum(weight*np.abs(B[self.options[
+                            'combinations'][ii][1], :])**2))
+                    / irfftsize)
             else:
                 norm = 1.
 
-- 
2.43.0


From 0cb686f2df41781f7f6f61bf8ef362b79e48696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 007/134] fix: end lag of a correlation is the lag of its last
 sample

The end lag was one sample too late. Correlations whose stations had to be
swapped got a lag axis that is shifted by one sample.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index c8ee6ee..4a9b9bd 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -386,7 +386,8 @@ class Correlator(object):
         if self.rank == 0:
             for ii, (startlag, comb) in enumerate(
                     zip(startlags, self.options['combinations'])):
-                endlag = startlag + len(A[ii, :])/self.options['sampling_rate']
+                endlag = startlag + (
+                    len(A[ii, :]) - 1)/self.options['sampling_rate']
                 cst.append(
                     CorrTrace(
                         A[ii], header1=st[comb[0]].stats,
-- 
2.43.0


From 00df8cb8ec32a0e318cdda0c8bd268d4a71cce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 008/134] fix: a requested combination only matches complete
 station codes

N-N.A-B also selected N-N.A-BC.
---
 src/seismic/correlate/correlate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 4a9b9bd..c2f94fd 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -840,9 +840,11 @@ def is_in_xcombis(id1: str, id2: str, rcombis: List[str] = None) -> bool:
     tcombi = f'{n1}-{n2}.{s1}-{s2}.{c1}-{c2}'
     tcombi2 = f'{n2}-{n1}.{s2}-{s1}.{c2}-{c1}'
     for combi in rcombis:
-        if fnmatch.fnmatch(tcombi, combi+'*') or fnmatch.fnmatch(
-                tcombi2, combi+'*'):
-            return True
+        # Channel information can be omitted
+        for pattern in (combi, combi+'.*'):
+            if fnmatch.fnmatch(tcombi, pattern) or fnmatch.fnmatch(
+                    tcombi2, pattern):
+                return True
     return False
 
 
-- 
2.43.0


From 5d9553728cd3c3f6ff79e8b87309f5fee8a27ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 009/134] fix: read the second station of combinations
 requested with channels

Its data were never read, so the combination was not computed.
---
 src/seismic/correlate/correlate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index c2f94fd..34fdd96 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -224,15 +224,17 @@ class Correlator(object):
         if self.rcombis is None or self.options['combination_method'] \
                 != 'betweenStations':
             return
+        # The combinations may or may not contain channels
+        rcombis = ['.'.join(comb.split('.')[:2]) for comb in self.rcombis]
         self.station = [
             [n, s] for n, s in self.station if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            fnmatch.filter(rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
+                rcombis, f'*-{n}.*-{s}')]
         # same check for avail_raw_data
         self.avail_raw_data = [
             [n, s, c] for n, s, c in self.avail_raw_data if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            fnmatch.filter(rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
+                rcombis, f'*-{n}.*-{s}')]
 
     def find_interstat_dist(self, dis: float):
         """
-- 
2.43.0


From c56197e40d7ded77fc22a71ae2d00a347856223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 010/134] fix: find existing data of combinations requested in
 reverse or by channel

---
 src/seismic/correlate/correlate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 34fdd96..f70686c 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1271,6 +1271,9 @@ def compute_network_station_combinations(
     netcombs = []
     statcombs = []
     if method == 'betweenStations':
+        # The requests may contain channels and be given in either order
+        requested = set(
+            '.'.join(comb.split('.')[:2]) for comb in combis or [])
         for ii, (n, s) in enumerate(zip(netlist, statlist)):
             for jj in range(ii+1, len(netlist)):
                 n2 = netlist[jj]
@@ -1278,10 +1281,9 @@ def compute_network_station_combinations(
                 if n != n2 or s != s2:
                     nc, sc, _ = sort_comb_name_alphabetically(n, s, n2, s2)
                     # Check requested combinations
-                    if (
-                        combis is not None
-                        and f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}' not in combis
-                    ):
+                    if combis is not None and not requested.intersection((
+                            f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}',
+                            f'{nc[1]}-{nc[0]}.{sc[1]}-{sc[0]}')):
                         continue
                     netcombs.append('%s-%s' % (nc[0], nc[1]))
                     statcombs.append('%s-%s' % (sc[0], sc[1]))
-- 
2.43.0


From 7ed963711a40a6d7769786f3635019ef1e4f0cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 011/134] fix: write the correlations of one read increment
 together

The first window of each increment was written (and, if recombine_subdivision
is set, stacked) with the windows of the previous one. The very first window
was stacked on its own.
---
 src/seismic/correlate/correlate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f70686c..3178590 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -342,7 +342,8 @@ class Correlator(object):
         inv = self.comm.bcast(inv, root=0)
 
         for st, write_flag in self._generate_data():
-            cst.extend(self._pxcorr_inner(st, inv))
+            # The flag marks the first window of a read increment. Everything
+            # that was computed before belongs to the previous increment
             if write_flag:
                 self.logger.debug('Writing Correlations to file.')
                 # Here, we can recombine the correlations for the read_len
@@ -351,6 +352,7 @@ class Correlator(object):
                 if cst.count():
                     self._write(cst)
                     cst.clear()
+            cst.extend(self._pxcorr_inner(st, inv))
 
         # write the remaining data
         if cst.count():
-- 
2.43.0


From 4354854bfad88dd44630b2ef53eedd544560c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 012/134] fix: interpolate short gaps between separate traces

Gaps in a stream that are not marked by masked samples, as in data read from
disk, were never interpolated.
---
 src/seismic/utils/miic_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index e7f9136..9b433c6 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -473,6 +473,8 @@ def gap_handler(
     """
     # take care of overlaps
     st = st.merge(method=-1)
+    # gaps between separate traces can only be interpolated if they are masked
+    st = st.merge()
     # 1. try to interpolate gaps
     st = interpolate_gaps_st(st, max_gap_len=max_interpolation_length)
 
-- 
2.43.0


From 8c45c8016a7377342cbaed33cde0c128b744f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 013/134] fix: masked samples do not contribute to correlations

Only the arrays below the masks were used, so that data masked with
stream_mask_at_utc were correlated nevertheless.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 3178590..cfc311e 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -800,7 +800,8 @@ def st_to_np_array(st: Stream, npts: int) -> Tuple[np.ndarray, Stream]:
     """
     A = np.zeros((st.count(), npts), dtype=np.float32)
     for ii, tr in enumerate(st):
-        A[ii, :tr.stats.npts] = tr.data
+        # The arrays below masks may still hold the original data
+        A[ii, :tr.stats.npts] = np.ma.filled(tr.data, 0)
         del tr.data  # Not needed any more, just uses up RAM
     return A, st
 
-- 
2.43.0


From fdde7277bf5d7564ea92473dfce5f3ee20349dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 014/134] fix: mask traces that lie completely within a masked
 interval

---
 src/seismic/correlate/preprocessing_stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 6ff6051..9727993 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -299,6 +299,10 @@ def trace_mask_at_utc(
         ne = int(np.ceil(tr.stats.sampling_rate*t))+1
         mask[:ne] = True
 
+    # mask covers the whole trace
+    if np.any((starts <= start) * (ends >= end)):
+        mask[:] = True
+
     if reverse:
         mask = ~mask
     # Mask the array
-- 
2.43.0


From 82ac8ab8f65fdb09e9942c510be32f5b92eb338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 015/134] fix: detrending keeps traces that begin or end with a
 gap at their time

---
 src/seismic/correlate/preprocessing_stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 9727993..67a7089 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -129,7 +129,10 @@ def detrend_st(st: Stream, *args, **kwargs) -> Stream:
     for tr in st:
         sst = tr.split()
         sst.detrend(*args, **kwargs)
-        tr.data = sst.merge()[0].data
+        sst.merge()
+        # Masked samples at the ends are lost when splitting
+        sst.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
+        tr.data = sst[0].data
     return st
 
 
-- 
2.43.0


From 88fb618705291bc184c43ea493642a323a4f158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 016/134] fix: align windows with the read increment when
 preprocessing per window

With preprocess_subdiv, windows were counted from the start of the first
available trace, whereas their times were counted from the read increment.
---
 src/seismic/correlate/correlate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index cfc311e..0a9adb8 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -547,6 +547,10 @@ class Correlator(object):
                         f'{st[0].stats.network}.{st[0].stats.station} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
                     continue
+            else:
+                # The windows start at startt, even if data start later
+                st.merge()
+                st.trim(startt, endt, pad=True)
 
             # Slice the stream in correlation length
             # -> Loop over correlation increments
-- 
2.43.0


From ceeeb90c64e672547dd9abd708f2e7900bbc5b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 017/134] fix: preprocessing per window does not correlate
 fully masked traces

---
 src/seismic/correlate/correlate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 0a9adb8..89a5e43 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -614,6 +614,8 @@ class Correlator(object):
                         win = preprocess_stream(
                             win, self.store_client, winstart, winend,
                             tl, **self.options)
+                        # everything could be masked by now
+                        mu.get_valid_traces(win)
                     except ValueError as e:
                         if st.count():
                             self.logger.error(
-- 
2.43.0


From 2de0714511f729723eec67c2cfb6bce065a2e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 018/134] fix: looking up start times that are not in a
 database gives none of them

A second run failed if there were files of stations whose code starts with the
code of another station, or if only stacks had been kept.
---
 src/seismic/db/corr_hdf5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 210b7ac..9da63e3 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -312,8 +312,13 @@ omitted." % path, category=UserWarning)
                 return out
             channel = [channel]
         path = '/'.join(path.split('/')[:-3])
+        try:
+            available = list(self[path].keys())
+        except KeyError:
+            # nothing available
+            return out
         for ch in channel:
-            for match in fnmatch.filter(self[path].keys(), ch):
+            for match in fnmatch.filter(available, ch):
                 out[match] = list(self['/'.join([path, match])].keys())
         return out
 
-- 
2.43.0


From e6efea3e40d70319029d093d9dcc7c96a6df35d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 019/134] fix: the correlator does not alter the options it is
 given

A second correlator could not be created with the same dictionary.
---
 src/seismic/correlate/correlate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 89a5e43..bcae4a6 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -60,6 +60,9 @@ class Correlator(object):
         if isinstance(options, str):
             with open(options) as file:
                 options = yaml.load(file, Loader=yaml.FullLoader)
+        else:
+            # The options are altered below. Leave the input as it is
+            options = deepcopy(options)
         # init MPI
         self.comm = MPI.COMM_WORLD
         self.psize = self.comm.Get_size()
-- 
2.43.0


From 69c06b8328d4afad81243e245eb9afd205541468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 020/134] fix: a database whose creation was interrupted can be
 opened for reading

If a run ended between creating the file and writing the correlation
options, any later run failed when it looked up existing correlations.
---
 src/seismic/db/corr_hdf5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 9da63e3..56308c2 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -88,7 +88,9 @@ class DBHandler(h5py.File):
                         f'\n{diff}'
                     )
             except KeyError:
-                self.add_corr_options(co)
+                # the options can only be added to a writable file
+                if mode != 'r':
+                    self.add_corr_options(co)
 
     def _close(self):
         self.close()
-- 
2.43.0


From 426065c7e2a59dd8b4671952c1dc42952f215b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 021/134] fix: zerophase filters of trace matrices work along
 the time axis

obspy reverses the first axis to filter backwards, so that matrices were
filtered twice in forward direction.
---
 src/seismic/correlate/preprocessing_td.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 0dfb556..53f0c0f 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -427,8 +427,14 @@ def TDfilter(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     func = func_from_str('obspy.signal.filter.%s' % args['type'])
     args = deepcopy(args)
     args.pop('type')
-    A = func(A, df=params['sampling_rate'], **args)
-    return A
+    if A.ndim == 1:
+        return func(A, df=params['sampling_rate'], **args)
+    # One trace at a time. For zerophase filters, obspy reverses the first
+    # axis, which would be the traces rather than the time.
+    B = np.empty(A.shape)
+    for ii, tr in enumerate(A):
+        B[ii] = func(tr, df=params['sampling_rate'], **args)
+    return B
 
 
 def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
-- 
2.43.0


From 71deface2c9b7f422d362efd7d07ffbd8627026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 022/134] fix: temporal normalisation of traces without signal
 gives no nans

---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 53f0c0f..b91fcf8 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -392,6 +392,8 @@ def TDnormalization(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
             B[ind, :] = np.convolve(B[ind, ::-1], window, mode='same')[::-1]
             # damping factor
             B[ind, :] += np.max(B[ind, :])*1e-6
+    # traces without any signal remain zero
+    B[B == 0] = 1
     # normalization
     A /= np.sqrt(B)
     return A
-- 
2.43.0


From 5eab858942933246bbc8926b38f42eea5f400aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 023/134] fix: whitening is not skipped if components have no
 energy

A single component without energy, e.g., in a dead trace, caused a
FloatingPointError, after which no trace was whitened.
---
 src/seismic/correlate/preprocessing_fd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index f2f59d8..b5e3760 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -106,6 +106,8 @@ def spectralWhitening(B: np.ndarray, args: dict, params) -> np.ndarray:
             for ii in np.arange(0, B.shape[0], 3):
                 absB[ii:ii+3, :] = np.tile(
                     np.atleast_2d(np.mean(absB[ii:ii+3, :], axis=0)), [3, 1])
+    # components without energy (e.g., of dead traces) remain zero
+    absB[absB == 0] = 1
     with np.errstate(invalid='raise'):
         try:
             B = np.true_divide(B, absB)
-- 
2.43.0


From 77c25bd6dfb3148926e6e34d927f826fc85ed2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 024/134] fix: frequency domain one-bit normalisation of series
 of odd length

---
 src/seismic/correlate/preprocessing_fd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index b5e3760..9b51eb6 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -66,12 +66,17 @@ def FDsignBitNormalization(
     :type args: dictionary
     :param args: not used in this function
     :type params: dictionary
-    :param params: not used in this function
+    :param params: `freqs` and `sampling_rate` determine the number of samples
+        in the time domain. An even number is assumed if not provided.
 
     :rtype: numpy.ndarray
     :return: frequency transform of the 1-bit normalized data
     """
-    B = np.fft.irfft(B)
+    # The time series may have an odd number of samples
+    npts = None
+    if 'freqs' in params and 'sampling_rate' in params:
+        npts = int(round(params['sampling_rate']/params['freqs'][1]))
+    B = np.fft.irfft(B, npts)
     # np.sign only takes the real part into account
     C = np.sign(B)
     return np.fft.rfft(C)
-- 
2.43.0


From a08c12926821ac77907f3d5e58f75aea62e26934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 025/134] fix: mute all data above the threshold, and only
 those, with extend_gaps

The extension was not symmetric for tapers of an even number of samples
and, as the sum of weights may be less than one, all data were muted for
some lengths.
---
 src/seismic/correlate/preprocessing_td.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index b91fcf8..df4bd65 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -228,11 +228,13 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     mask[D > np.tile(thres, (D.shape[1], 1)).T] = 0
     # extend the muted segments to make sure the whole segment is zero after
     if args['extend_gaps']:
-        tap = np.ones(ntap)/ntap
+        # Symmetric window, also for even ntap. No division, so that the
+        # result is not affected by rounding.
+        tap = np.ones(2*(ntap//2) + 1)
         for ind in range(A.shape[0]):
             mask[ind, :] = np.convolve(mask[ind, :], tap, mode='same')
         nmask = np.ones_like(D)
-        nmask[mask < 1.] = 0
+        nmask[mask < len(tap)] = 0
     else:
         nmask = mask
 
-- 
2.43.0


From b723af3a2b6fdcedd465d2797d45b9c19aa274c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 026/134] fix: interpolating gaps of traces without data leaves
 them unchanged

---
 src/seismic/utils/miic_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 9b433c6..ba4d983 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -502,6 +502,9 @@ def interpolate_gaps(A: np.ndarray, max_gap_len: int = -1) -> np.ndarray:
     if not np.ma.is_masked(A):
         return A
     mask = np.ma.getmask(A)
+    if mask.all():
+        # nothing to interpolate from
+        return A
 
     maskconc = np.concatenate((
         [mask[0]], mask[:-1] != mask[1:], [True]))
-- 
2.43.0


From 5bb9b04594b9f4a8f54bcc969f4a8e4de12d03fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 027/134] fix: tapering at masked samples keeps traces with
 leading gaps at their time

---
 src/seismic/correlate/preprocessing_stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 67a7089..2dc63ae 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -92,6 +92,8 @@ def cos_taper(
         st = tr.split()
         st = cos_taper_st(st, taper_len, False, False)
         st = st.merge()
+        # Masked samples at the ends are lost when splitting
+        st.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
         if st.count():
             tr.data = st[0].data
             return tr
-- 
2.43.0


From 70458ac2b6c11f0a765c74e3edc4e39ec20fc7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 028/134] fix: taper integer data smoothly rather than setting
 the ends to zero

---
 src/seismic/correlate/preprocessing_stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 2dc63ae..4fb6a16 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -99,6 +99,9 @@ def cos_taper(
             return tr
         else:
             raise ValueError('Taper length must be larger than 0 s')
+    if np.issubdtype(tr.data.dtype, np.integer):
+        # also if not tapered, so that snippets can still be merged
+        tr.data = tr.data.astype(float)
     tl_n = round(taper_len*tr.stats.sampling_rate)
     if tl_n * 2 > tr.stats.npts:
         raise ValueError(
-- 
2.43.0


From 471aa52621692d4910c866b8026a758408b34eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 029/134] fix: detrending leaves completely masked traces
 unchanged

---
 src/seismic/correlate/preprocessing_stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 4fb6a16..9614fe2 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -133,6 +133,9 @@ def detrend_st(st: Stream, *args, **kwargs) -> Stream:
     """
     for tr in st:
         sst = tr.split()
+        if not len(sst):
+            # completely masked
+            continue
         sst.detrend(*args, **kwargs)
         sst.merge()
         # Masked samples at the ends are lost when splitting
-- 
2.43.0


From b079d52e5ef70f8751754ad6cf6e84afa2807063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 030/134] fix: lists of one time are restored as lists from
 files

The times of matrices or velocity changes of a single time window were
read as a plain time, so that, e.g., they could not be printed or averaged.
---
 src/seismic/utils/miic_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index ba4d983..2af3bc2 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -263,6 +263,9 @@ def save_header_to_np_array(stats: Stats) -> dict:
     for k in stats:
         if k in t_keys:
             array_dict[k] = convert_utc_to_timestamp(stats[k])
+            if not isinstance(stats[k], UTCDateTime) and len(stats[k]) == 1:
+                # distinguish lists of one time from times
+                array_dict[k] = array_dict[k][np.newaxis]
         else:
             array_dict[k] = np.array([stats[k]])
     return array_dict
@@ -283,7 +286,11 @@ def load_header_from_np_array(array_dict: dict) -> dict:
         if k in no_stats or re.match('reftr', k):
             continue
         elif k in t_keys:
-            d[k] = convert_timestamp_to_utcdt(array_dict[k])
+            if array_dict[k].ndim == 2:
+                # list of one time
+                d[k] = [UTCDateTime(t) for t in array_dict[k][0]]
+            else:
+                d[k] = convert_timestamp_to_utcdt(array_dict[k])
         else:
             try:
                 d[k] = array_dict[k][0]
-- 
2.43.0


From 86208f3f587dc4bc88efa1c0d9bd92e62e312d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 031/134] fix: header of stacks describes the traces that were
 stacked

---
 src/seismic/correlate/stream.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 952fa28..ca9ce74 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1627,14 +1627,16 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
     :return: Single trace with stacked data
     :rtype: CorrTrace
     """
-    st.sort(keys=['corr_start'])
-    stats = st[0].stats.copy()
-    stats['corr_end'] = st[-1].stats['corr_end']
     st.sort(keys=['npts'])
     npts = st[-1].stats.npts
+    # the header should describe the traces that are stacked
+    st = st.select(npts=npts)
+    st.sort(keys=['corr_start'])
+    stats = st[0].stats.copy()
+    stats['corr_end'] = max(tr.stats.corr_end for tr in st)
     stack = []
     dur = []  # duration of each trace
-    for tr in st.select(npts=npts):
+    for tr in st:
         stack.append(tr.data)
         dur.append(tr.stats.corr_end-tr.stats.corr_start)
     A = np.array(stack)
-- 
2.43.0


From e03331fbd36c6f0fc8c80244342e2f9c03505775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 032/134] fix: stacks of zero correlations are zero

---
 src/seismic/correlate/stream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index ca9ce74..7c5c894 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1643,14 +1643,16 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
     if weight == 'mean' or weight == 'average':
         data = np.nanmean(A, axis=0)
         if norm:
-            norm = np.nanmax(np.abs(data))
+            # correlations of a dead channel may be zero
+            norm = np.nanmax(np.abs(data)) or 1
             data /= norm  # np.tile(np.atleast_2d(norm).T, (1, A.shape[1]))
         return CorrTrace(data, _header=stats)
     elif weight == 'by_length':
         # Weight by the length of each trace
         data = np.nansum((A.T*np.array(dur)).T, axis=0)/np.nansum(dur)
         if norm:
-            norm = np.nanmax(np.abs(data))
+            # correlations of a dead channel may be zero
+            norm = np.nanmax(np.abs(data)) or 1
             data /= norm  # np.tile(np.atleast_2d(norm).T, (1, A.shape[1]))
         return CorrTrace(data=data, _header=stats)
 
-- 
2.43.0


From d0829a2644c8340c5b5728728d22925694961960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 033/134] fix: stack all traces if they differ in length

The default end time was the end of the trace that starts last.
---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 7c5c894..e7e933a 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1226,7 +1226,7 @@ class CorrStream(Stream):
         if not starttime:
             starttime = self[0].stats.corr_start
         if not endtime:
-            endtime = self[-1].stats.corr_end
+            endtime = max(tr.stats.corr_end for tr in self)
         outst = CorrStream()
         if stack_len == 'daily':
             starttime = UTCDateTime(
-- 
2.43.0


From ad0465be09e118f4710e7640b9ef6ae09f89e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 034/134] fix: lists in headers are restored as lists from
 files

Converting a CorrBulk that was read from a file to a CorrStream gave every
trace the location and channel codes of all of them.
---
 src/seismic/utils/miic_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 2af3bc2..e5fafac 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -293,7 +293,10 @@ def load_header_from_np_array(array_dict: dict) -> dict:
                 d[k] = convert_timestamp_to_utcdt(array_dict[k])
         else:
             try:
-                d[k] = array_dict[k][0]
+                value = array_dict[k][0]
+                # lists are restored as lists
+                d[k] = value.tolist() if isinstance(value, np.ndarray) \
+                    else value
             except IndexError:
                 warnings.warn(
                     f'Key {k} could not be loaded into the header.')
-- 
2.43.0


From 98ec17ae12494af9b6f9e9e9b8b4a8f0eff70699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 035/134] fix: slice CorrBulks that hold a single correlation

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index e7e933a..60dcf32 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -818,7 +818,7 @@ class CorrBulk(object):
             ii = np.logical_and(
                 np.array(self.stats.corr_start) >= starttime,
                 np.array(self.stats.corr_end) <= endtime)
-        ii = np.squeeze(ii)
+        ii = np.atleast_1d(np.squeeze(ii))
         if not len(np.nonzero(ii)[0]):
             warnings.warn(
                 'No slices found in the requested time. Returning empty arr.')
-- 
2.43.0


From f9b0e6e91d47de4c27ce3da7a5880875ef13695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 036/134] fix: slicing a CorrBulk keeps the processing notes

Lists in the header that do not have one entry per correlation were
shortened as if they had.
---
 src/seismic/correlate/stream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 60dcf32..91d5214 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -671,7 +671,11 @@ class CorrBulk(object):
         stats = deepcopy(self.stats)
         for key, value in stats.items():
             try:
-                if isinstance(value, list) and key != 'processing_bulk':
+                if key not in (
+                        'corr_start', 'corr_end', 'location', 'channel'):
+                    # not a list of one entry per correlation
+                    continue
+                if isinstance(value, list):
                     stats[key] = [v for jj, v in zip(ii, value) if jj]
                 elif isinstance(value, np.ndarray):
                     stats[key] = value[ii]
-- 
2.43.0


From 54d234399f0396f0679d455f810f528038963bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 037/134] fix: CorrBulks read from files can be processed

The header was a plain dictionary, whose entries cannot be accessed as
attributes.
---
 src/seismic/correlate/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 91d5214..422401a 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -60,7 +60,9 @@ class CorrBulk(object):
         """
         self.data = A
         if stats:
-            self.stats = stats
+            # headers read from files are plain dictionaries
+            self.stats = stats if isinstance(stats, CorrStats) \
+                else CorrStats(stats)
         elif statlist:
             self.stats = convert_statlist_to_bulk_stats(statlist)
         else:
-- 
2.43.0


From 1c3a9b6f12dc677b68e65baebb1e36666f79d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 038/134] fix: CorrBulks keep their processing notes

when they are saved and read again, sliced, or indexed.
---
 src/seismic/correlate/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 422401a..a2123e9 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -68,7 +68,9 @@ class CorrBulk(object):
         else:
             self.stats = CorrStats()
             self.stats['ntrcs'], self.stats['npts'] = A.shape
-        self.stats['processing_bulk'] = []
+        # keep the notes when recreating an object
+        self.stats['processing_bulk'] = list(
+            self.stats.get('processing_bulk', []))
         self.ref_trc = None
 
     def __getitem__(self, item):
-- 
2.43.0


From 9ab99fb8322e4155994ea9484cf04815a0583f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 039/134] fix: error message if there are no correlations for a
 CorrBulk

---
 src/seismic/correlate/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a2123e9..3c4f95b 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -931,9 +931,10 @@ class CorrStream(Stream):
         if times:
             st = st.select_corr_time(times[0], times[1])
         if not st.count():
-            raise ValueError(
-                f'CorrStream contains no data between {times[0]} and '
-                f'{times[1]}.')
+            msg = 'CorrStream contains no matching data'
+            if times:
+                msg += f' between {times[0]} and {times[1]}'
+            raise ValueError(msg + '.')
         A = np.empty((st.count(), st[0].stats.npts))
         statlist = []
         # Double check sampling rate
-- 
2.43.0


From 64de010d392a351c6a056d4168143ba6c74cbe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 040/134] fix: trimming keeps exactly the requested lags at
 their time

Rounding of e.g. (0.3 + 1)*10 could lose the last or add another sample, and
the start lag was set to the requested one even if that is between two
samples.
---
 src/seismic/monitor/trim.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index b1bfedb..15426c8 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -18,6 +18,23 @@ import numpy as np
 from seismic.correlate.stats import CorrStats
 
 
+def lag_to_index(lag: float, stats: CorrStats) -> int:
+    """
+    Index of the sample at the given lag, or of the one before if the lag is
+    between two samples.
+
+    :param lag: lag in seconds with respect to the zero position
+    :type lag: float
+    :param stats: header of the correlation matrix
+    :type stats: CorrStats
+    :return: The index, negative if before the first sample.
+    :rtype: int
+    """
+    ind = (lag - stats['start_lag'])*stats['sampling_rate']
+    # Do not miss a sample due to the limited precision of the lags
+    return int(np.floor(np.round(ind, 6)))
+
+
 def corr_mat_trim(
     data: np.ndarray, stats: CorrStats, starttime: float,
         endtime: float) -> Tuple[np.ndarray, CorrStats]:
@@ -41,9 +58,8 @@ def corr_mat_trim(
     """
 
     # fetch indices of start and end
-    start = int(
-        np.floor((starttime-stats['start_lag'])*stats['sampling_rate']))
-    end = int(np.floor((endtime-stats['start_lag'])*stats['sampling_rate']))
+    start = lag_to_index(starttime, stats)
+    end = lag_to_index(endtime, stats)
 
     # check range
     if start < 0:
@@ -62,7 +78,8 @@ def corr_mat_trim(
         data = data[:, start:end + 1]
         stats['npts'] = data.shape[1]
 
-    # set starttime, endtime and npts of the new stats
-    stats['start_lag'] = starttime
+    # set starttime, endtime and npts of the new stats. The first sample keeps
+    # its lag, even if the requested time is between two samples
+    stats['start_lag'] = stats['start_lag'] + start/stats['sampling_rate']
 
     return data, stats
-- 
2.43.0


From 6b456fe99ebcadefa934aad8588bb05a4bba8b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 041/134] fix: mirror correlations irrespective of the
 precision of the start lag

---
 src/seismic/monitor/post_corr_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ecf5072..5b83687 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -460,7 +460,8 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
     :rtype: Tuple[np.ndarray, CorrStats]
     """
 
-    zero_sample = -(stats['start_lag']*stats['sampling_rate'])
+    # limited precision of the lags
+    zero_sample = np.round(-(stats['start_lag']*stats['sampling_rate']), 6)
 
     if zero_sample <= 0:
         print('No data present for mirroring: starttime > zerotime.')
-- 
2.43.0


From 74a7d41159ede66a50fdb5994c83b7b85c89dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 042/134] fix: taper the centre of asymmetric correlations

---
 src/seismic/monitor/post_corr_process.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 5b83687..d5fa871 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -574,17 +574,15 @@ def corr_mat_taper_center(
     taper[-slope_length:] = tap[:slope_length]
 
     # calculate start end end points of the taper
-    start = int(-stats['start_lag']*stats['sampling_rate'] - length/2)
-    if start < 0:
-        taper = taper[np.absolute(start):]
-        start = 0
-
-    end = start + length
-    if end > stats['npts']:
-        end = stats['npts']
-        taper = taper[0:end - start]
+    start = int(np.round(
+        -stats['start_lag']*stats['sampling_rate'] - length/2))
+    end = start + length + 1
+    # only the part of the taper that is on the lag axis
+    taper = taper[max(-start, 0):max(stats['npts'] - start, 0)]
+    start = max(start, 0)
+    end = max(end, 0)
     # apply taper
-    data[:, start:end + 1] *= \
+    data[:, start:end] *= \
         np.tile(np.atleast_2d(taper), (data.shape[0], 1))
 
     return data
-- 
2.43.0


From 9f98c8bd77259e7f893eedad363d83133509280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 043/134] fix: mirroring leaves acausal correlations unchanged

whatever the precision of the end lag.
---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index d5fa871..40420a2 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -466,7 +466,7 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
     if zero_sample <= 0:
         print('No data present for mirroring: starttime > zerotime.')
         return data, stats
-    if stats['end_lag'] <= 0:
+    if zero_sample >= stats['npts'] - 1:
         print('No data present for mirroring: endtime < zerotime.')
         return data, stats
     if np.fmod(zero_sample, 1) != 0:
-- 
2.43.0


From 5d94d31cd2ad5683207e01a4fd1acc7996491ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 044/134] fix: normalise with the samples in the requested lag
 window

The indices were truncated from floating point lags, so that the window
started or ended one sample early for some start lags.
---
 src/seismic/monitor/post_corr_process.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 40420a2..83ac3f5 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -27,7 +27,7 @@ from seismic.monitor.stretch_mod import multi_ref_vchange_and_align, \
     create_shifted_ref_mat
 from seismic.correlate.stats import CorrStats
 from seismic.monitor.dv import DV
-from seismic.monitor.trim import corr_mat_trim
+from seismic.monitor.trim import corr_mat_trim, lag_to_index
 
 
 def corr_mat_clip(A: np.ndarray, thres: float, axis: int) -> np.ndarray:
@@ -409,14 +409,12 @@ def corr_mat_normalize(
     # needs to be like this because this condition also has to work when it's 0
     if starttime is not None:
         # first sample
-        start = starttime - stats['start_lag']
-        start = int(np.floor(start*stats['sampling_rate']))
+        start = lag_to_index(starttime, stats)
     else:
         start = None
 
     if endtime is not None:
-        end = endtime - stats['start_lag']
-        end = int(np.floor(end*stats['sampling_rate']))
+        end = lag_to_index(endtime, stats)
     else:
         end = None
 
-- 
2.43.0


From 7b95c7a648ca5f98f5c849ce72e6920c881ccd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 045/134] fix: reflect the data symmetrically before smoothing

The reflected copies skipped the first neighbour on one and repeated the
last sample on the other side, which bent straight lines at the ends. It
failed altogether for windows as long as the data.
---
 src/seismic/monitor/post_corr_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 83ac3f5..ccf8ef9 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -105,8 +105,9 @@ def _smooth(
             "Window is not one of 'flat', 'hanning', 'hamming', "
             "'bartlett', 'blackman'")
 
-    s = np.r_[2 * x[0] - x[window_len:1:-1], x,
-              2 * x[-1] - x[-1:-window_len:-1]]
+    # The samples at the ends themselves are not repeated
+    s = np.r_[2 * x[0] - x[window_len-1:0:-1], x,
+              2 * x[-1] - x[-2:-window_len-1:-1]]
 
     if window == 'flat':  # moving average
         w = np.ones(window_len, 'd')
-- 
2.43.0


From a8757b74f664f9acdaff0d55e0dd717ec9f3bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 046/134] fix: average all correlations after a single start
 time

If only one start time was given, correlations starting after the end of
the last row were left out if the rows were not sorted by time.
---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ccf8ef9..97bf210 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -272,7 +272,7 @@ def corr_mat_resample(
     else:
         if len(start_times) == 1:
             # there is only one start_time given and no end_time => average all
-            etime = np.array([stats['corr_end'][-1].timestamp])
+            etime = np.array([max(stats['corr_end']).timestamp])
         else:
             stime = np.array(stime)  # Cannot be a list for this operation
             etime = stime + (stime[1] - stime[0])
-- 
2.43.0


From 592f90a6a2314fec78a2cce41e77cbd4ffb7d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 047/134] fix: adapt the location codes when resampling a
 correlation matrix

The header kept one location code per original row, so that neither
slicing nor converting the matrix to traces was possible afterwards.
---
 src/seismic/monitor/post_corr_process.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 97bf210..8d3885a 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -284,10 +284,18 @@ def corr_mat_resample(
     nmat = np.empty([len(stime), data.shape[1]])
     nmat.fill(np.nan)
 
+    # codes that vary from row to row, bins without data get the first one
+    codes = {
+        key: [stats[key][0]]*len(stime) for key in ('location', 'channel')
+        if isinstance(stats.get(key), list)}
+
     for ii in range(len(stime)):
         # index of measurements between start_time[ii] and end_time[ii]
         ind = np.nonzero((otime >= stime[ii]) * (otime < etime[ii]))
         # ind is a list(tuple) for dimensions
+        if len(ind[0]):
+            for key, code in codes.items():
+                code[ii] = stats[key][ind[0][0]]
         if len(ind[0]) == 1:
             # one measurement found
             nmat[ii, :] = data[ind[0], :]
@@ -298,6 +306,8 @@ def corr_mat_resample(
     # assign new data
     data = nmat
 
+    for key, code in codes.items():
+        stats[key] = code
     stats['corr_start'] = [UTCDateTime(st) for st in stime]
     stats['corr_end'] = [UTCDateTime(et) for et in etime]
 
-- 
2.43.0


From c5276e4afd6061968ad5a3b3033bfb1da859ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 048/134] fix: update the number of traces when resampling a
 correlation matrix

---
 src/seismic/monitor/post_corr_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 8d3885a..793904b 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -308,6 +308,8 @@ def corr_mat_resample(
 
     for key, code in codes.items():
         stats[key] = code
+    if 'ntrcs' in stats:
+        stats['ntrcs'] = len(stime)
     stats['corr_start'] = [UTCDateTime(st) for st in stime]
     stats['corr_end'] = [UTCDateTime(et) for et in etime]
 
-- 
2.43.0


From c21c3640fef1b2fa9d943977aeaa88babc48f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 049/134] fix: leave out missing correlations in the median
 reference trace

numpy.median does not know about masks.
---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 793904b..b3ad29f 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -761,7 +761,7 @@ def corr_mat_extract_trace(
     elif method == 'median':
         mm = np.ma.masked_array(
             ndata, np.isnan(ndata))
-        out = np.median(mm, 0).filled(np.nan)
+        out = np.ma.median(mm, 0).filled(np.nan)
     elif method == 'norm_mean':
         # normalize the matrix
         ndata = corr_mat_normalize(ndata, stats, normtype='absmax')
-- 
2.43.0


From e5ac1c03981fc8941bf68bfbdc6d1f1e627d0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 050/134] fix: reference by similarity from a single or
 identical traces

No trace is more similar to the mean than the percentile then, so that the
reference was NaN.
---
 src/seismic/monitor/post_corr_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index b3ad29f..a9b5a1d 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -788,6 +788,9 @@ def corr_mat_extract_trace(
         # find the traces that agree with the requested percentile and calc
         # their mean
         ind = cor > tres
+        if not np.any(ind):
+            # e.g., only one trace
+            ind = cor >= tres
         out = np.mean(ndata[ind, :], 0)
     else:
         raise ValueError("Method '%s' not defined." % method)
-- 
2.43.0


From a70a7c5aabb1d969a17c5c7b58c4e5deacfdd38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 051/134] fix: reference by similarity in windows without data

It is missing as for the other methods instead of raising an IndexError.
---
 src/seismic/monitor/post_corr_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index a9b5a1d..b61bc4e 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -783,6 +783,9 @@ def corr_mat_extract_trace(
         for ind in range(mm.shape[0]):
             cor[ind] = (
                 np.dot(ndata[ind, :], mean_tr) / np.sqrt(cm_sq[ind] * tm_sq))
+        if np.all(np.isnan(cor)):
+            # no data
+            return np.full(ndata.shape[1], np.nan)
         # estimate the percentile excluding nans
         tres = np.percentile(cor[~np.isnan(cor)], percentile)
         # find the traces that agree with the requested percentile and calc
-- 
2.43.0


From 18c931c19bbaace9df7ab6efec1615ed2c7312a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 052/134] fix: accept arrays of increments in
 extract_multi_trace

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 3c4f95b..7252bd3 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -375,7 +375,7 @@ class CorrBulk(object):
         ..note:: the extracted traces will also be saved in self.ref_trc
         """
         ref_trcs = []
-        if isinstance(win_inc, list):
+        if isinstance(win_inc, (list, np.ndarray)):
             win_inc = np.array(win_inc)
         elif win_inc == 0:
             return self.extract_trace(method, percentile)
-- 
2.43.0


From 3c01ecb04266ecabfb48a40d8c5a1058b52ceb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 053/134] fix: correct the decay of correlations without lag
 zero

The decay was fitted as function of the index. For purely acausal
correlations the correction had the wrong sign.
---
 src/seismic/monitor/post_corr_process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index b61bc4e..791c434 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -347,7 +347,9 @@ def corr_mat_correct_decay(data: np.ndarray, stats: CorrStats) -> np.ndarray:
     # env = np.nansum(env, 0)
 
     # fit the decay
-    t = np.arange(stats_mirr['npts'])
+    t = np.absolute(
+        np.arange(stats_mirr['npts'])
+        + stats_mirr['start_lag']*stats_mirr['sampling_rate'])
     le = np.log(env)
     K, log_A = np.polyfit(t, le, 1)
     A = np.exp(log_A)
-- 
2.43.0


From be72623a701e9923277a80b226094dd655d237b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 054/134] fix: do not alter the header of the matrix when
 estimating stretches

The header of the input was trimmed but its data was not. A second
estimate on the same CorrBulk thus used the wrong lags, e.g., the acausal
instead of the causal part for sides='single'.
---
 src/seismic/monitor/post_corr_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 791c434..eb79034 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -885,6 +885,8 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    # The trimming must not alter the header of the input matrix
+    stats = deepcopy(stats)
 
     dta = -stats['start_lag']
     dte = stats['end_lag']
-- 
2.43.0


From 78b39ef3b4d9f60e4bfe0c2facff291e6d302476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 055/134] fix: use the first of several time windows for
 stretching

---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index f9e91a5..5549bf6 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -933,7 +933,7 @@ def multi_ref_vchange_and_align(
         print(
             "The multi-reference vchange evaluation cannot handle multiple "
             "time windows. Only the first time-window will be used")
-        tw = tw[0]
+        tw = tw[:1]
 
     multi_ref_panel = multi_ref_vchange(
         corr_data, ref_trs, tw=tw, stretch_range=stretch_range,
-- 
2.43.0


From 8bd9ed399c0f02a155d349b4048bbc157d56364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 056/134] fix: keep the dimension of the correlations in
 velocity estimates

The results for matrices with a single correlation were scalars, so that
neither correct_stretch nor the time information of the DV object worked.
---
 src/seismic/monitor/stretch_mod.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 5549bf6..8a69289 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -329,14 +329,19 @@ def velocity_change_estimate(
         # to one of the two stretch_range limits
         dt[ii, np.isnan(tmp_corr_vect)] = np.nan
 
-    dv = {'corr': np.squeeze(corr),
-          'value': np.squeeze(dt),
+    if len(tw) == 1:
+        # Only remove the dimension of the time windows, there can be just one
+        # correlation
+        corr, dt, sim_mat = corr[0], dt[0], sim_mat[:, :, 0]
+
+    dv = {'corr': corr,
+          'value': dt,
           'second_axis': strvec,
           'value_type': 'stretch',
           'method': 'single_ref'}
 
     if return_sim_mat:
-        dv.update({'sim_mat': np.squeeze(sim_mat)})
+        dv.update({'sim_mat': sim_mat})
 
     return dv
 
-- 
2.43.0


From 543877c9735e10907c59575bdb91edb646e5be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 057/134] fix: sign convention of time_stretch_apply

According to the documentation, applying the negative of the estimated
stretch corrects for it. It actually doubled the stretch.
---
 src/seismic/monitor/stretch_mod.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 8a69289..c5aba89 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1219,8 +1219,7 @@ def time_stretch_apply(
     # stretch every line
     for (ii, line) in enumerate(mat):
         s = UnivariateSpline(time_idx, line, s=0)
-        stretched_mat[ii, :] = s(time_idx * (1 + stretch[ii]))
-        stretched_mat[ii, :] = s(time_idx * np.exp(stretch[ii]))
+        stretched_mat[ii, :] = s(time_idx * np.exp(-stretch[ii]))
 
     return stretched_mat
 
-- 
2.43.0


From 41dc1692909c4f6602e886235b367671339f08dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 058/134] fix: do not taper the input of time_stretch_apply

---
 src/seismic/monitor/stretch_mod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index c5aba89..97c3428 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1205,7 +1205,8 @@ def time_stretch_apply(
     # taper and extend the reference trace to avoid interpolation
     # artefacts at the ends of the trace
     taper = cosine_taper(mat.shape[1], 0.05)
-    mat *= np.tile(taper, [mat.shape[0], 1])
+    # not in-place, this is the input
+    mat = mat * np.tile(taper, [mat.shape[0], 1])
 
     # time axis
     if single_sided:
-- 
2.43.0


From 254f0cdb276a3d0a773b9011cbcb6ec5fa3d7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 059/134] fix: stretch references about lag zero

The reference was stretched about its first (sides='single') or central
sample before trimming it to the lags in use. This is not lag zero for
two-sided references with sides='single' and for asymmetric lag axes.
---
 src/seismic/monitor/post_corr_process.py | 8 +++++++-
 src/seismic/monitor/stretch_mod.py       | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index eb79034..1b4b250 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -886,6 +886,7 @@ def corr_mat_stretch(
 
     data = deepcopy(cdata)
     # The trimming must not alter the header of the input matrix
+    untrimmed = stats
     stats = deepcopy(stats)
 
     dta = -stats['start_lag']
@@ -905,8 +906,13 @@ def corr_mat_stretch(
     # create or extract references
     if ref_trc is None:
         ref_trc = corr_mat_extract_trace(data, stats)
-    if ref_tr_stats is None:
         ref_tr_stats = stats
+    elif ref_tr_stats is None:
+        # Usually, the reference has the length of the matrix before trimming
+        if np.shape(ref_trc)[-1] == untrimmed['npts']:
+            ref_tr_stats = untrimmed
+        else:
+            ref_tr_stats = stats
 
     dv = multi_ref_vchange_and_align(
         data, ref_trc, tw=tw, stretch_range=stretch_range,
diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 97c3428..38347c4 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -454,7 +454,11 @@ def time_stretch_estimate(
     time_facs = np.exp(-stretches)
 
     # time axis
-    if sides != 'single':
+    if ref_tr_stats is not None and ref_tr_stats['npts'] == len(ref_trc):
+        # zero lag is not necessarily on the first or the central sample
+        time_idx = np.arange(len(ref_trc)) \
+            + ref_tr_stats['start_lag']*ref_tr_stats['sampling_rate']
+    elif sides != 'single':
         time_idx = np.arange(len(ref_trc)) - (len(ref_trc) - 1.) / 2.
     else:
         time_idx = np.arange(len(ref_trc))
-- 
2.43.0


From 49e980202669ba94aad8d27153609a0d27e55b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 060/134] fix: keep the dimension of the correlations in shift
 estimates

The results for matrices with a single correlation were scalars, so that
correct_shift failed.
---
 src/seismic/monitor/post_corr_process.py | 6 +++---
 src/seismic/monitor/stretch_mod.py       | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 1b4b250..79d6216 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1216,13 +1216,13 @@ def measure_shift(
     # assemble results
     dt = {
         'stats': stats,
-        'corr': np.squeeze(corr),
-        'value': np.squeeze(value),
+        'corr': corr,
+        'value': value,
         'second_axis': shifts,
         'value_type': np.array(['shift']),
         'method': np.array(['absolute_shift'])}
     if return_sim_mat:
-        dt.update({'sim_mat': np.squeeze(sim_mat)})
+        dt.update({'sim_mat': sim_mat})
     else:
         dt.update({'sim_mat': None})
     return DV(**dt)
diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 38347c4..94ec4af 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1100,14 +1100,14 @@ def time_shift_estimate(
         sim_mat = dtdict['sim_mat']
 
     # create the result dictionary
-    dt = {'corr': np.squeeze(corr),
-          'value': np.squeeze(shift),
+    dt = {'corr': corr,
+          'value': shift,
           'second_axis': shifts,
           'value_type': np.array(['shift']),
           'method': np.array(['time_shift'])}
 
     if return_sim_mat:
-        dt.update({'sim_mat': np.squeeze(sim_mat)})
+        dt.update({'sim_mat': sim_mat})
 
     return dt
 
-- 
2.43.0


From a27e96470fe377a0120c1064aac819a584231821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 061/134] fix: do not alter the header of the matrix in
 find_clock_shift

---
 src/seismic/monitor/post_corr_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 79d6216..1ab89f6 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -995,6 +995,8 @@ def corr_mat_shift(
     """
 
     data = deepcopy(data)
+    # The trimming must not alter the header of the input matrix
+    stats = deepcopy(stats)
 
     dta = -stats.start_lag
     dte = stats.end_lag
-- 
2.43.0


From 91365cbceb123024ca3690373972edc466a4b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 062/134] fix: check the number of shifts in time_shift_apply

The check was skipped for the most common case of one shift per row.
---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 94ec4af..81955a0 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1141,7 +1141,7 @@ def time_shift_apply(
         t_shift[:, 0] = shift
         shift = t_shift
     # shift has the wrong length
-    elif shift.shape[0] != mat.shape[0]:
+    if shift.shape[0] != mat.shape[0]:
         raise ValueError('shift.shape[0] must be equal corr_data.shape[0]')
 
     # if there is a significant clock drift during a correlation
-- 
2.43.0


From 7aa2b4c295eb0e6e9201bef1948147b5c8733711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 063/134] fix: read velocity changes without similarity matrix

measure_shift returns a DV without similarity matrix by default, which
could be saved but not read.
---
 src/seismic/monitor/dv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 72dd140..f194c93 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -262,7 +262,8 @@ def read_dv(path: str) -> DV:
     except KeyError:
         dv_processing = {}
     return DV(
-        loaded['corr'], loaded['value'], vt, loaded['sim_mat'],
+        loaded['corr'], loaded['value'], vt,
+        loaded.get('sim_mat', None),
         loaded['second_axis'], method, stats=stats,
         stretches=loaded.get('stretches', None),
         corrs=loaded.get('corrs', None), n_stat=loaded.get('n_stat', None),
-- 
2.43.0


From 747b8ff97b1a2cb8bf3e895d4f788cbc6769e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 064/134] fix: allow shift windows up to the ends of the traces

Due to the limited precision of the lags, even the default window could be
refused.
---
 src/seismic/monitor/post_corr_process.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 1ab89f6..e53aa4a 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1173,11 +1173,13 @@ def measure_shift(
         twmin = -twmax
     else:
         twmin = np.min(np.array(tw)[:]) - shift_range
-    assert twmax <= stats.end_lag, "Time window ends later than the trace. " \
-        f"Latest time window + shift_range ends at {twmax}s " \
+    # limited precision of the lags
+    tol = 1e-6/stats.sampling_rate
+    assert twmax - tol <= stats.end_lag, "Time window ends later than the " \
+        f"trace. Latest time window + shift_range ends at {twmax}s " \
         f"while trace end at {stats.end_lag}s."
-    assert twmin >= stats.start_lag, f"Time window starts earlier than the " \
-        f"trace. Earliest time window - shift_range starts at {twmin}s " \
+    assert twmin + tol >= stats.start_lag, "Time window starts earlier than " \
+        f"the trace. Earliest time window - shift_range starts at {twmin}s " \
         f"while trace starts at {stats.start_lag}s."
     data, stats = corr_mat_trim(data, stats, twmin, twmax)
 
-- 
2.43.0


From d00e2f419c7c601fa54de2043a2fc3bfc05911eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 065/134] fix: samples in the windows of measure_shift

Rounding errors excluded samples at the boundaries of the windows.
---
 src/seismic/monitor/post_corr_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index e53aa4a..8e1f905 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1202,8 +1202,8 @@ def measure_shift(
     for twi in tw:
         # create indices of time windows
         indices = np.arange(
-            np.ceil(twi[0]*stats.sampling_rate),
-            np.floor(twi[1]*stats.sampling_rate))
+            np.ceil(np.round(twi[0]*stats.sampling_rate, 6)),
+            np.floor(np.round(twi[1]*stats.sampling_rate, 6)))
         if sides == 'both':
             indices = np.concatenate((np.flipud(-indices), indices))
         indices -= np.round(stats.start_lag * stats.sampling_rate)
-- 
2.43.0


From c90440a5d3b8851f0819150294ee21d10e09f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 066/134] fix: multiple references with a single correlation

The dimension of the correlations was removed, so that matrices with a
single correlation could not be compared to multiple references.
---
 src/seismic/monitor/stretch_mod.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 81955a0..7dabcf5 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -770,10 +770,10 @@ def estimate_reftr_shifts_from_dt_corr(
                        if reftr != reftr1]
             for reftr2 in ref_idx:
                 ccorr, sshift = est_shift_from_dt_corr(
-                    np.squeeze(multi_ref_panel[reftr1]['value']),
-                    np.squeeze(multi_ref_panel[reftr2]['value']),
-                    np.squeeze(multi_ref_panel[reftr1]['corr']),
-                    np.squeeze(multi_ref_panel[reftr2]['corr']))
+                    multi_ref_panel[reftr1]['value'],
+                    multi_ref_panel[reftr2]['value'],
+                    multi_ref_panel[reftr1]['corr'],
+                    multi_ref_panel[reftr2]['corr'])
                 corr.append(ccorr)
                 shift.append(sshift)
 
@@ -808,7 +808,7 @@ def estimate_reftr_shifts_from_dt_corr(
         m = np.around(m / delta)  # , out=np.zeros_like(m, dtype='int32'))
         m = np.require(m, dtype='int32')
 
-        row, col = np.squeeze(multi_ref_panel['reftr_0']['sim_mat']).shape
+        row, col = multi_ref_panel['reftr_0']['sim_mat'].shape
 
         stmp = np.zeros((row, col, n_ref))
 
@@ -816,9 +816,7 @@ def estimate_reftr_shifts_from_dt_corr(
         for (i, reftr) in enumerate(np.sort(list(multi_ref_panel.keys()))):
 
             stmp[:, :, i] = \
-                np.roll(np.squeeze(multi_ref_panel[reftr]['sim_mat']),
-                        m[i],
-                        axis=1)
+                np.roll(multi_ref_panel[reftr]['sim_mat'], m[i], axis=1)
 
         # Create a msked array to evaluate the mean
         stmp_masked = np.ma.masked_array(
-- 
2.43.0


From 7c8277b11e756a7e5b59d12320a9ce1c57c84839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 067/134] fix: no joint estimate for missing correlations

With several references, they got the lower limit of the search range as
value.
---
 src/seismic/monitor/stretch_mod.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 7dabcf5..ae720f8 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -842,10 +842,8 @@ def estimate_reftr_shifts_from_dt_corr(
         except Exception:
             pass
 
-        try:
-            dt = dt.filled(np.nan).astype('int')
-        except Exception:
-            pass
+        # No value where there is no correlation
+        dt[np.isnan(corr)] = np.nan
 
         ret_dict = {'corr': corr,
                     'value': dt,
-- 
2.43.0


From 63dfd0cf41c628c469231bbea8c54fed1aee4d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 068/134] fix: joint estimates with missing references

The shift of references without data is not defined but contributed to the
average shift. The result depended on the position of such a reference.
---
 src/seismic/monitor/stretch_mod.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index ae720f8..5558f7b 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -800,7 +800,12 @@ def estimate_reftr_shifts_from_dt_corr(
 
         m = np.dot(left_op, np.dot(GTW, D))
         m = np.hstack((0, m))
-        m = m - np.mean(m)
+        # The average must not depend on the references without any data
+        has_data = np.array([
+            np.any(np.isfinite(multi_ref_panel[reftr]['corr']))
+            for reftr in np.sort(list(multi_ref_panel.keys()))])
+        if np.any(has_data):
+            m = m - np.mean(m[has_data])
 
         # How many samples (int) each sim matrix must be rolled
         # PM October 2021 - require works the dtype casting in first
-- 
2.43.0


From 972907fd533bed8a3420848fb995860212f17101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 069/134] fix: compare dvs at all overlapping times

The slice excluded the last overlapping time. With a single common time
it was empty and the shift undefined.
---
 src/seismic/monitor/monitor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index f7cdf73..cab50c8 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -869,16 +869,17 @@ def correct_dv_shift(
         stop = len(dv0.value) - 1
     if start < 0:
         start = 0
-    dv0c = dv0.corr[start:stop]
-    dv0v = dv0.value[start:stop]
-    dv1c = dv1.corr[start:stop]
-    dv1v = dv1.value[start:stop]
+    # stop is the last point to be compared
+    dv0c = dv0.corr[start:stop+1]
+    dv0v = dv0.value[start:stop+1]
+    dv1c = dv1.corr[start:stop+1]
+    dv1v = dv1.value[start:stop+1]
     if method == 'mean':
         shift = np.nanmean(dv0v*dv0c)/np.nanmean(dv0c)\
             - np.nanmean(dv1v*dv1c)/np.nanmean(dv1c)
     elif method == 'median':
         shift = np.nanmedian(
-            dv0.value[start:stop])-np.nanmedian(dv1.value[start:stop])
+            dv0v)-np.nanmedian(dv1v)
     else:
         raise ValueError('Method has to be either mean or median')
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
-- 
2.43.0


From bd72d3a8bbe1c57dace435763cd3223e4e221f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 070/134] fix: no dv values for missing times after a shift

---
 src/seismic/monitor/monitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index cab50c8..7bee573 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -885,7 +885,9 @@ def correct_dv_shift(
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
     dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
     dv0.value = dv0.second_axis[
-        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)]
+        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)].astype(float)
+    # times without data remain without a value
+    dv0.value[~dv0.avail] = np.nan
     return dv0, dv1
 
 
-- 
2.43.0


From 47ca9a524274134d11445c6ff4dc6f6c35b7f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 071/134] fix: skip all averaged dvs when averaging by
 coordinates

Averages over stations of a single component keep their channel code and
hold tuples as coordinates, which cannot be compared.
---
 src/seismic/monitor/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 7bee573..431910e 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -1133,7 +1133,7 @@ def average_dvs_by_coords(
     dv_filt = []
     for dv in dvs:
         s = dv.stats
-        if s.channel == 'av':
+        if 'av' in s.channel+s.network+s.station:
             warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
             continue
         if all((
-- 
2.43.0


From 42bc23213bc8b9c84a89cbb6a22e9a15e44c61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 072/134] fix: no values for missing times in smoothed dvs

---
 src/seismic/monitor/dv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index f194c93..f91306b 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -218,7 +218,10 @@ class DV(object):
         # Compute the dependencies again
         self.corr = np.nanmax(self.sim_mat, axis=1)
         self.value = self.second_axis[
-            np.argmax(np.nan_to_num(self.sim_mat), axis=1)]
+            np.argmax(np.nan_to_num(self.sim_mat), axis=1)].astype(float)
+        # no estimate for times without data
+        self.value[np.isnan(self.corr)] = np.nan
+        self.avail = ~np.isnan(self.corr)
         return self
 
 
-- 
2.43.0


From 47cf27a46385652e018f4f9491eafab3d9583dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 073/134] fix: memory-saving average with partly missing
 similarities

---
 src/seismic/monitor/monitor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 431910e..fb3780b 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -965,7 +965,8 @@ def average_components_mem_save(
     for ii, dv in enumerate(dvs):
         if ii == 0:
             sim_mat_sum = np.zeros_like(dv.sim_mat)
-            n_stat = np.zeros_like(dv.corr)
+            n_sim = np.zeros_like(dv.sim_mat, dtype=int)
+            n_stat = np.zeros_like(dv.corr, dtype=int)
 
             stats = deepcopy(dv.stats)
             strvec = dv.second_axis
@@ -987,14 +988,15 @@ def average_components_mem_save(
             )
             continue
         sim_mat_sum += np.nan_to_num(dv.sim_mat)
-        n_stat[~np.isnan(dv.value)] += 1
+        n_sim += ~np.isnan(dv.sim_mat)
+        n_stat += dv.avail
         if save_scatter:
             corrs.append(dv.corr)
             stretches.append(dv.value)
         statsl.append(dv.stats)
-    # Now inf where it was nan before
-    av_sim_mat = (sim_mat_sum.T/n_stat).T
-    av_sim_mat[np.isinf(av_sim_mat)] = np.nan
+    # nan where nothing was available
+    av_sim_mat = np.full_like(sim_mat_sum, np.nan)
+    np.divide(sim_mat_sum, n_sim, out=av_sim_mat, where=n_sim > 0)
     # Now we would have to recompute the dv value and corr value
     iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
-- 
2.43.0


From c6444adeacfef2b621ffcb9f37930a86c05bc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 074/134] fix: missing similarities never are the maximum

---
 src/seismic/monitor/dv.py      | 4 ++--
 src/seismic/monitor/monitor.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index f91306b..6510231 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -217,8 +217,8 @@ class DV(object):
 
         # Compute the dependencies again
         self.corr = np.nanmax(self.sim_mat, axis=1)
-        self.value = self.second_axis[
-            np.argmax(np.nan_to_num(self.sim_mat), axis=1)].astype(float)
+        iimax = np.argmax(np.nan_to_num(self.sim_mat, nan=-np.inf), axis=1)
+        self.value = self.second_axis[iimax].astype(float)
         # no estimate for times without data
         self.value[np.isnan(self.corr)] = np.nan
         self.avail = ~np.isnan(self.corr)
diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index fb3780b..20968c0 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -884,8 +884,8 @@ def correct_dv_shift(
         raise ValueError('Method has to be either mean or median')
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
     dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
-    dv0.value = dv0.second_axis[
-        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)].astype(float)
+    iimax = np.argmax(np.nan_to_num(dv0.sim_mat, nan=-np.inf), axis=1)
+    dv0.value = dv0.second_axis[iimax].astype(float)
     # times without data remain without a value
     dv0.value[~dv0.avail] = np.nan
     return dv0, dv1
@@ -998,7 +998,7 @@ def average_components_mem_save(
     av_sim_mat = np.full_like(sim_mat_sum, np.nan)
     np.divide(sim_mat_sum, n_sim, out=av_sim_mat, where=n_sim > 0)
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    iimax = np.argmax(np.nan_to_num(av_sim_mat, nan=-np.inf), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     dt = strvec[iimax]
     dt[np.isnan(corr)] = np.nan
@@ -1074,7 +1074,7 @@ def average_components(
             n_overlap=correct_shift_overlap)
     av_sim_mat = np.nanmean([dv.sim_mat for dv in dv_use], axis=0)
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    iimax = np.argmax(np.nan_to_num(av_sim_mat, nan=-np.inf), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     strvec = dv_use[0].second_axis
     dt = strvec[iimax]
-- 
2.43.0


From c3df9d3ac1299fdb72e3247342fa30ba2df6beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 075/134] fix: skipped averages do not decide about axes and
 header

If the first dv is itself an average it is left out, but its header and
the shape of its similarity matrix were still used.
---
 src/seismic/monitor/monitor.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 20968c0..84ac835 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -962,8 +962,17 @@ def average_components_mem_save(
     statsl = []
     corrs = []
     stretches = []
-    for ii, dv in enumerate(dvs):
-        if ii == 0:
+    sim_mat_sum = None
+    method = None
+    for dv in dvs:
+        if method is None:
+            method = dv.method
+        if dv.method != method:
+            raise TypeError('DV has to be computed with the same method.')
+        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
+            warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
+            continue
+        if sim_mat_sum is None:
             sim_mat_sum = np.zeros_like(dv.sim_mat)
             n_sim = np.zeros_like(dv.sim_mat, dtype=int)
             n_stat = np.zeros_like(dv.corr, dtype=int)
@@ -971,13 +980,7 @@ def average_components_mem_save(
             stats = deepcopy(dv.stats)
             strvec = dv.second_axis
             value_type = dv.value_type
-            method = dv.method
             dv_processing = dv.dv_processing
-        if dv.method != method:
-            raise TypeError('DV has to be computed with the same method.')
-        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
-            warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
-            continue
         if dv.sim_mat.shape != sim_mat_sum.shape or any(
                 dv.second_axis != strvec):
             warnings.warn(
@@ -1057,8 +1060,9 @@ def average_components(
         if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
             warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
             continue
-        if dv.sim_mat.shape != dvs[0].sim_mat.shape or any(
-                dv.second_axis != dvs[0].second_axis):
+        dv_ref = dv_use[0] if len(dv_use) else dv
+        if dv.sim_mat.shape != dv_ref.sim_mat.shape or any(
+                dv.second_axis != dv_ref.second_axis):
             warnings.warn(
                 'The shapes of the similarity matrices of the input DVs '
                 + 'vary. Make sure to compute the dvs with the same parameters'
-- 
2.43.0


From 1b2787d0939092bfa1d4d86a620a8b1ad653bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 076/134] fix: keep scatter arrays out of the header of loaded
 dvs

---
 src/seismic/utils/miic_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index e5fafac..64d7c15 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -242,6 +242,7 @@ t_keys = ['starttime', 'endtime', 'corr_start', 'corr_end']
 # No stats, keys that are not in stats but attributes of the respective objects
 no_stats = [
     'corr', 'value', 'sim_mat', 'second_axis', 'method_array', 'vt_array',
+    'stretches', 'corrs', 'n_stat',
     'data', 'tw_len', 'tw_start', 'freq_min', 'freq_max', 'aligned', 'subdir',
     'plot_vel_change', 'start_date', 'end_date', 'win_len', 'date_inc',
     'sides', 'compute_tt', 'rayleigh_wave_velocity', 'stretch_range',
-- 
2.43.0


From 1dbf0e18282e0eb19d0b94052bf7cecda444cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 077/134] fix: plain values in the processing notes of loaded
 dvs

A loaded dv was never aligned to a grid as its 'aligned' entry was a 0-d
array and not False.
---
 src/seismic/monitor/dv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 6510231..c3ab475 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -260,8 +260,11 @@ def read_dv(path: str) -> DV:
             freq_max=float(loaded['freq_max']),
             tw_start=float(loaded['tw_start']),
             tw_len=float(loaded['tw_len']))
-        dv_processing['sides'] = loaded.get('sides', 'unknown')
-        dv_processing['aligned'] = loaded.get('aligned', False)
+        # np.load returns 0-d arrays
+        dv_processing['sides'] = np.asarray(
+            loaded.get('sides', 'unknown')).item()
+        dv_processing['aligned'] = np.asarray(
+            loaded.get('aligned', False)).item()
     except KeyError:
         dv_processing = {}
     return DV(
-- 
2.43.0


From 25d96ab299d4d87f5eeb52fd246f9bc6b14c8c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 078/134] fix: question marks as wildcards in read_wfc

---
 src/seismic/monitor/wfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index 9447c13..58bd7d5 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -141,7 +141,7 @@ def read_wfc(path: str) -> WFC:
     :return: The WFC object.
     :rtype: WFC
     """
-    if '*' in path:
+    if '*' in path or '?' in path:
         return [read_wfc(f) for f in glob.glob(path, recursive=True)]
     loaded = np.load(path)
     d = {}
-- 
2.43.0


From f6753f54a9b341f9acce297b12d390e95e51383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 079/134] fix: waveform coherence with a header of its own

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 7252bd3..f115307 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -798,7 +798,7 @@ class CorrBulk(object):
             'freq_min': freq_min,
             'freq_max': freq_max
         }
-        wfc = WFC(wfc_dict, self.stats, wfc_processing)
+        wfc = WFC(wfc_dict, deepcopy(self.stats), wfc_processing)
         return wfc
 
     def _find_slice_index(
-- 
2.43.0


From 2c7048c812cbe32b5d599c026b098b68f4ba43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 080/134] fix: components average per station code

Files were grouped by a wildcard after the station code, so that A1 and A10
ended up in one average.
---
 src/seismic/monitor/monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 84ac835..e88c32d 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -398,8 +398,8 @@ class Monitor(object):
             ch = 'av'
         while len(infiles):
             # Find files belonging to same station
-            pat = '.'.join(infiles[0].split('.')[:-2]) + '*'
-            filtfil = fnmatch.filter(infiles, pat)
+            pat = '.'.join(infiles[0].split('.')[:-2]) + '.'
+            filtfil = [f for f in infiles if f.startswith(pat)]
             fffil = []  # Second filter
             for f in filtfil:
                 if ch in f.split('.'):
-- 
2.43.0


From 950e93739d588a0e36ebef1f4fe14295e6c00226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 081/134] fix: components average in any directory

Files of averages were recognised by 'av' anywhere in their path, so that
nothing was averaged in directories with these letters in their name.
---
 src/seismic/monitor/monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index e88c32d..e71ee76 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -402,7 +402,8 @@ class Monitor(object):
             filtfil = [f for f in infiles if f.startswith(pat)]
             fffil = []  # Second filter
             for f in filtfil:
-                if ch in f.split('.'):
+                cha = f.split('.')[-2]
+                if cha == ch:
                     # Is already computed for this station
                     # So let's remove all of them from the initial list
                     for ff in filtfil:
@@ -416,7 +417,7 @@ class Monitor(object):
                     fffil.clear()
                     self.logger.debug('Skipping already averaged dv...%s' % f)
                     break
-                elif 'av' in f:
+                elif cha.startswith('av'):
                     # computed by another averaging method
                     infiles.remove(f)
                     continue
-- 
2.43.0


From 23bec9a979ea152bdd3434c4e0dd003610884be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 082/134] fix: lists of networks and stations to monitor

Both codes of a combination had to match the same entry of a list, so that
cross-correlations between two listed stations were left out, and a list
of networks made the list of stations ineffective.
---
 src/seismic/monitor/monitor.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index e71ee76..9146a2f 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -768,7 +768,6 @@ def corr_find_filter(
     statlist = []
     infiles = []
     for f in glob(os.path.join(indir, '*-*.*-*.h5')):
-        matched = False
         f = os.path.basename(f)
         split = f.split('.')
 
@@ -780,22 +779,18 @@ def corr_find_filter(
             continue
         elif isinstance(net['network'], list):
             # account for the case of wildcards in the network list
-            for n in net['network']:
-                if fnmatch.filter(nsplit, n) == nsplit:
-                    matched = True
-                    break
-            if not matched:
+            if not all(any(
+                    fnmatch.fnmatch(n, pat) for pat in net['network'])
+                    for n in nsplit):
                 continue
         if isinstance(net['station'], str) and not fnmatch.filter(
                 ssplit, net['station']) == ssplit:
             continue
         elif isinstance(net['station'], list):
             # account for the case of wildcards in the station list
-            for s in net['station']:
-                if fnmatch.filter(ssplit, s) == ssplit:
-                    matched = True
-                    break
-            if not matched:
+            if not all(any(
+                    fnmatch.fnmatch(s, pat) for pat in net['station'])
+                    for s in ssplit):
                 continue
 
         netlist.append(split[0])
-- 
2.43.0


From 1d0c4f7783ec7d80b70b846225082f1ca918e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 083/134] fix: error message for lag windows that are too long

The message uses the distance of the stations, which is only known if
compute_tt is set.
---
 src/seismic/monitor/monitor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 9146a2f..c00bace 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -196,6 +196,7 @@ class Monitor(object):
             lts = cdb.get_corr_options()['corr_args']['lengthToSave']
 
         tw_start = self.options['dv']['tw_start']
+        dist_str = ''
 
         if self.options['dv']['compute_tt']:
             if not hasattr(cst[0].stats, 'dist'):
@@ -211,6 +212,9 @@ class Monitor(object):
                 tt = round(
                     d/self.options['dv']['rayleigh_wave_velocity'], 0)
                 tw_start += tt
+                dist_str = (
+                    f' The direct-line distance between the stations is {d}'
+                    ' km.')
                 self.logger.info(
                     f'Computed travel time for {network}.{station} is '
                     f'{tt} s. The assumed direct-line distance was {d} km.')
@@ -223,7 +227,7 @@ class Monitor(object):
                 'Function.'
                 ' When computing the correlations make sure to set an '
                 f'appropriate value for lengthToSave. The value was {lts}.'
-                f' The direct-line distance between the stations is {d} km.'
+                + dist_str
             )
 
         if 'preprocessing' in self.options['dv']:
-- 
2.43.0


From b5ddb3e7f9e30725a299f0a980122194729daa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 084/134] fix: velocity changes from the rest of the coda

tw_len: None is documented, but adding it to tw_start failed. The bulk was
also shared with the one that is corrected for the first estimate.
---
 src/seismic/monitor/monitor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index c00bace..13a27af 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -218,9 +218,9 @@ class Monitor(object):
                 self.logger.info(
                     f'Computed travel time for {network}.{station} is '
                     f'{tt} s. The assumed direct-line distance was {d} km.')
-        if lts < tw_start + self.options['dv']['tw_len']:
-            reqtw = tw_start + self.options[
-                'dv']['tw_len']
+        # Without length, the rest of the correlation is used
+        reqtw = tw_start + (self.options['dv']['tw_len'] or 0)
+        if lts < reqtw:
             raise ValueError(
                 'Requested lapse time window (time window start + time window'
                 f' length = {reqtw} contains segments after the Correlation'
@@ -261,7 +261,7 @@ class Monitor(object):
         if self.options['dv']['tw_len'] is None:
             trim0 = cb.stats.start_lag
             trim1 = cb.stats.end_lag
-            cbt = cb
+            cbt = cb.copy()
         else:
             trim0 = -(
                 tw_start+self.options['dv']['tw_len'])
-- 
2.43.0


From 7fd5c99193cf5adcbd5cd78d3e2e64d16d271f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 085/134] fix: log options that json does not know

pop_at_utcs takes an array of times, with which no Monitor could be
created.
---
 src/seismic/monitor/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 13a27af..d70235e 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -117,7 +117,7 @@ class Monitor(object):
                         step['args']['ends'] = endsstr
             with open(os.path.join(
                     logdir, 'params%s.txt' % tstr), 'w') as file:
-                file.write(json.dumps(opt_dump, indent=1))
+                file.write(json.dumps(opt_dump, indent=1, default=str))
 
         # Find available stations and network
         self.netlist, self.statlist, self.infiles = \
-- 
2.43.0


From a0bfad0ccf749b7f4fecb0a56ea91e3ec6975778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 086/134] fix: processing notes of its own for each DV

DV objects shared the default dictionary or the one of the object they were
derived from, so that aligning one of them to the grid marked the others as
aligned. CorrBulk.stretch passes None by default, which cannot be aligned.
---
 src/seismic/monitor/dv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index c3ab475..7791eb3 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -34,7 +34,7 @@ class DV(object):
         sim_mat: np.ndarray, second_axis: np.ndarray, method: str,
         stats: CorrStats, stretches: np.ndarray = None,
         corrs: np.ndarray = None, n_stat: np.ndarray = None,
-            dv_processing: dict = {}):
+            dv_processing: dict = None):
         """
         Creates an object designed to hold and process velocity changes.
 
@@ -77,7 +77,8 @@ class DV(object):
         self.second_axis = second_axis
         self.method = method
         self.stats = stats
-        self.dv_processing = dv_processing
+        # A copy, aligning the dv notes the value in here
+        self.dv_processing = dict(dv_processing or {})
         # Available indices
         self.avail = ~np.isnan(self.corr)
 
-- 
2.43.0


From 890c13cfe2d3c93b730272b3e0faa4f4f8d84259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 087/134] fix: save and load incomplete processing notes

Aligned dvs without further notes could not be saved, and all notes were
lost if the length of the time window is None (rest of the coda).
---
 src/seismic/monitor/dv.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 7791eb3..1894a1c 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -109,10 +109,10 @@ class DV(object):
         kwargs = mu.save_header_to_np_array(self.stats)
         if self.dv_processing is not None and len(self.dv_processing):
             kwargs.update({
-                'freq_min': self.dv_processing['freq_min'],
-                'freq_max': self.dv_processing['freq_max'],
-                'tw_len': self.dv_processing['tw_len'],
-                'tw_start': self.dv_processing['tw_start'],
+                k: self.dv_processing[k] for k in (
+                    'freq_min', 'freq_max', 'tw_len', 'tw_start')
+                if k in self.dv_processing})
+            kwargs.update({
                 'sides': self.dv_processing.get('sides', 'unknown'),
                 'aligned': self.dv_processing.get('aligned', False)
             })
@@ -255,19 +255,18 @@ def read_dv(path: str) -> DV:
     method = loaded['method_array']
     while not isinstance(method, str):
         method = method[0]
-    try:
-        dv_processing = dict(
-            freq_min=float(loaded['freq_min']),
-            freq_max=float(loaded['freq_max']),
-            tw_start=float(loaded['tw_start']),
-            tw_len=float(loaded['tw_len']))
+    dv_processing = {
+        k: float(loaded[k]) for k in (
+            'freq_min', 'freq_max', 'tw_start', 'tw_len') if k in loaded}
+    if 'tw_start' in dv_processing:
+        # The length is None if the rest of the coda was used
+        dv_processing.setdefault('tw_len', None)
+    if dv_processing or 'aligned' in loaded:
         # np.load returns 0-d arrays
         dv_processing['sides'] = np.asarray(
             loaded.get('sides', 'unknown')).item()
         dv_processing['aligned'] = np.asarray(
             loaded.get('aligned', False)).item()
-    except KeyError:
-        dv_processing = {}
     return DV(
         loaded['corr'], loaded['value'], vt,
         loaded.get('sim_mat', None),
-- 
2.43.0


From fdc1467880c48674efca643884920684e16c3c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 088/134] fix: invert dvs without processing notes

Without notes, their dictionary is empty (not None), and the arguments for
this case were of no use.
---
 src/seismic/monitor/spatial.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index d0314ae..393c4a3 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -773,16 +773,15 @@ class DVGrid(object):
         self._add_stations(slat1, slon1)
         vals = np.array(vals)
         corrs = np.array(corrs)
-        if processing is not None:
+        processing = processing or {}
+        if processing.get('tw_len') is not None:
             tw = (
                 processing['tw_start'],
                 processing['tw_start'] + processing['tw_len'])
-            freq0 = processing['freq_min']
-            freq1 = processing['freq_max']
         else:
             tw = None
-            freq0 = None
-            freq1 = None
+        freq0 = processing.get('freq_min')
+        freq1 = processing.get('freq_max')
         return vals, corrs, slat0, slon0, slat1, slon1, tw, freq0, freq1
 
     def _add_stations(self, lats: Iterable[float], lons: Iterable[float]):
-- 
2.43.0


From 186f42598fe96b537b4a7a0ccc21fa9665f32151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 089/134] fix: sensitivity kernels for any lapse time

The integration went beyond the lapse time if this is not a multiple of dt
or due to rounding, which was refused as negative time.
---
 src/seismic/monitor/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 393c4a3..5c21efe 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -153,7 +153,8 @@ def sensitivity_kernel(
             'dt is too large for the grid spacing. This can lead to '
             'artefacts in the kernel. dt should be smaller than '
             'dx/(2*vel).')
-    T = np.arange(0, t + dt, dt)
+    # Not more than half a sample beyond t, times cannot be negative
+    T = np.arange(0, t + dt/2, dt)
     dist_s1_s2 = np.linalg.norm(s1-s2)
     denom = probability(dist_s1_s2, t, vel, mf_path, atol=atol)
     dist_s1_x0 = compute_grid_dist(x, y, s1[0], s1[1])
-- 
2.43.0


From 0c4a7b783c7127bb8f9b6a9fe561acc2a829f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 090/134] fix: sensitivity kernels for any grid resolution

The spacing of np.arange(0, 10, .1) varies by rounding errors, and the grid
was refused.
---
 src/seismic/monitor/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 5c21efe..33e2535 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -146,7 +146,8 @@ def sensitivity_kernel(
     atol = vel*dt/2
     if dt <= 0:
         raise ValueError('dt has to be greater than 0.')
-    if np.any(np.diff(x) != x[1]-x[0]) or np.any(np.diff(y) != y[1]-y[0]):
+    if not np.allclose(np.diff(x), x[1]-x[0]) or not np.allclose(
+            np.diff(y), y[1]-y[0]):
         raise ValueError('x and y have to be monotonously increasing arrays.')
     if x[1]-x[0] < 2*vel*dt:
         warnings.warn(
-- 
2.43.0


From 73b64f94d3586edeb475b3824663bcacc4fc07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 091/134] fix: refuse points outside of the grid

Points north of the grid (misplaced parenthesis) and lists of which some
points are outside were assigned to border cells. Combining a single
latitude with several longitudes is documented, but failed.
---
 src/seismic/monitor/spatial.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 33e2535..84c6b1c 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -878,23 +878,15 @@ class DVGrid(object):
         """
         # Find northing and easting of coordinates
         x, y = geo2cart(lat, lon, self.lat0, self.lon0)
-        if not isinstance(x, np.ndarray):
-            if np.all(abs(self.xf-x) > self.res) \
-                    or np.all(abs(self.yf-y > self.res)):
-                raise ValueError(
-                    'The point is outside the coordinate grid'
-                )
-            return np.argmin(abs(self.xf-x)**2+abs(self.yf-y)**2)
-        if np.all(np.array([abs(self.xf-xx) for xx in x]) > self.res)\
-                or np.all(np.array([abs(self.yf-yy) for yy in y]) > self.res):
+        x, y = np.broadcast_arrays(x, y)
+        dx = abs(x[..., np.newaxis] - self.xf)
+        dy = abs(y[..., np.newaxis] - self.yf)
+        if np.any(np.all(dx > self.res, axis=-1)) \
+                or np.any(np.all(dy > self.res, axis=-1)):
             raise ValueError(
                 'The point is outside the coordinate grid'
             )
-        ii = np.array(
-            [np.argmin(
-                abs(self.xf-xx)**2+abs(self.yf-yy)**2) for xx, yy in zip(
-                    x, y)])
-        return ii
+        return np.argmin(dx**2 + dy**2, axis=-1)
 
     def _compute_sensitivity_kernels(
         self, slat0: np.ndarray, slon0: np.ndarray, slat1: np.ndarray,
-- 
2.43.0


From 2ad01160905771edc256c27ed8c0097ee1f604f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 092/134] fix: align each dv to its own prediction

The forward model leaves out dvs without usable coefficient, but align_dvs_to
_grid assumed one prediction per dv, so that the remaining dvs were aligned
to the prediction for another one.
---
 src/seismic/monitor/spatial.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 84c6b1c..b91b1f2 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -754,8 +754,7 @@ class DVGrid(object):
             ii = np.argmin(abs(np.array(dv.stats.corr_start)-utc))
             val = dv.value[ii]
             corr = dv.corr[ii]
-            if np.isnan(val) or np.isnan(corr) or corr <= 1e-3 or corr >= 1:
-                # No value
+            if not _has_value(val, corr):
                 continue
             vals.append(val)
             corrs.append(corr)
@@ -1084,4 +1083,20 @@ def dv_starts(dv: DV, utc: UTCDateTime, corr_thres: float) -> bool:
     ii = np.argmin(abs(np.array(dv.stats.corr_start)-utc))
     if np.isnan(dv.corr[ii]) or dv.corr[ii] < corr_thres:
         return False
-    return True
+    # The forward model leaves these out
+    return _has_value(dv.value[ii], dv.corr[ii])
+
+
+def _has_value(value: float, corr: float) -> bool:
+    """
+    Check whether a velocity change can be used as data for the inversion.
+
+    :param value: Velocity change
+    :type value: float
+    :param corr: Correlation coefficient
+    :type corr: float
+    :return: True if the velocity change can be used.
+    :rtype: bool
+    """
+    return not (
+        np.isnan(value) or np.isnan(corr) or corr <= 1e-3 or corr >= 1)
-- 
2.43.0


From bbfc0a38d7311b6743dcb4effb88a6f8ec6ab746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 093/134] fix: store data with gaps

Writing a span of a day that is not adjacent to the stored data
of that day tried to write a masked array and failed.
---
 src/seismic/trace_data/waveform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c9d49f9..05bfeab 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -370,7 +370,8 @@ class Store_Client(object):
         if os.path.exists(filename):
             rst = read(filename)
             rst.append(tr)
-            rst.merge()
+            # gaps cannot be written
+            rst = rst.merge().split()
         else:
             if not os.path.exists(os.path.dirname(filename)):
                 os.makedirs(os.path.dirname(filename))
-- 
2.43.0


From 56d1361c51f79f20c3be295026949ca82d5326c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 094/134] fix: store traces of a single sample

The piece of data between two gaps can be a single sample, which was
dropped when writing to the local archive.
---
 src/seismic/trace_data/waveform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 05bfeab..2de0041 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -350,7 +350,9 @@ class Store_Client(object):
         # write the data
         for tr in st:
             starttime = tr.stats.starttime
-            while starttime < tr.stats.endtime:
+            # the first piece may be a single sample
+            while starttime < tr.stats.endtime or (
+                    tr.stats.npts and starttime == tr.stats.starttime):
                 endtime = UTCDateTime(
                     starttime.year, starttime.month, starttime.day) + 86400*1.5
                 endtime = UTCDateTime(endtime.year, endtime.month, endtime.day)
-- 
2.43.0


From 2a5e153483e193a989fc4191c1e8391047ec9316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 095/134] fix: read files whose first or last sample is
 requested

A span that ends with the first (or starts with the last) sample of a
file left that sample out.
---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 2de0041..847b071 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -653,7 +653,7 @@ def _read_filepattern(
             print('%s from %s to %s\n' % (f, start, end))
     st = Stream()
     for ind, fname in enumerate(flist):
-        if (starttimes[ind] < endtime) and (endtimes[ind] > starttime):
+        if (starttimes[ind] <= endtime) and (endtimes[ind] >= starttime):
             if trim:
                 st += read(
                     fname, starttime=UTCDateTime(starttime),
-- 
2.43.0


From de05a0d4feb700812dc01dfa2c4a63630634ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 096/134] fix: step between monthly files of different length

Reading around the 29th to 31st of a month raised ValueError if the
neighbouring month is shorter.
---
 src/seismic/trace_data/waveform.py | 33 ++++++++----------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 847b071..6d8ff9f 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -11,6 +11,7 @@ Created: Thursday, 18th February 2021 02:30:02 pm
 Last Modified: Monday, 4th March 2024 11:44:40 am
 '''
 
+import calendar
 import fnmatch
 import os
 import datetime
@@ -699,30 +700,14 @@ def _adjacent_filepattern(
                 elif tpart in ['%U', '%W']:
                     thistime = starttime + inc * datetime.timedelta(days=7)
                 elif tpart in ['%b', '%B', '%m']:
-                    if starttime.month + inc == 0:
-                        thistime = datetime.datetime(starttime.year-1,
-                                                     12,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    elif starttime.month + inc == 13:
-                        thistime = datetime.datetime(starttime.year+1,
-                                                     1,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    else:
-                        thistime = datetime.datetime(starttime.year,
-                                                     starttime.month + inc,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
+                    year, month = divmod(
+                        12*starttime.year + starttime.month - 1 + inc, 12)
+                    month += 1
+                    # the other month can be shorter
+                    thistime = starttime.replace(
+                        year=year, month=month, day=min(
+                            starttime.day,
+                            calendar.monthrange(year, month)[1]))
                 elif tpart in ['%y', '%Y']:
                     thistime = datetime.datetime(
                         starttime.year - inc, starttime.month, starttime.day,
-- 
2.43.0


From baa9d6c3b9941277d054797b754dcc6285ee3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 097/134] fix: step between yearly files in the right direction

The file of the year before was read instead of the following (and vice
versa), and the 29th of February raised ValueError.
---
 src/seismic/trace_data/waveform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 6d8ff9f..84c2a95 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -709,10 +709,12 @@ def _adjacent_filepattern(
                             starttime.day,
                             calendar.monthrange(year, month)[1]))
                 elif tpart in ['%y', '%Y']:
-                    thistime = datetime.datetime(
-                        starttime.year - inc, starttime.month, starttime.day,
-                        starttime.hour, starttime.minute, starttime.second,
-                        starttime.microsecond)
+                    year = starttime.year + inc
+                    # the other year may have no 29th of February
+                    thistime = starttime.replace(
+                        year=year, day=min(
+                            starttime.day,
+                            calendar.monthrange(year, starttime.month)[1]))
     fname = _current_filepattern(ID, thistime, fs)
     return fname, thistime
 
-- 
2.43.0


From 3b5d244cfc0deeb40378941b121507aa8d70fcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 098/134] fix: file structures without time elements

Reading a span that is not covered completely raised UnboundLocalError.
---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 84c2a95..0a782e7 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -681,6 +681,8 @@ def _adjacent_filepattern(
     assert ((inc == 1) or (inc == -1)), " inc must either be 1 or -1"
     fname = ''
     flag = 0
+    # without a time in the file structure there is no other file
+    thistime = starttime
     # find earlier time by turning back the time by one increment of the
     # last time indicator in the fs
     for part in fs[-1::-1]:
-- 
2.43.0


From d7c51af3c31f665c122838457925458f33f40ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 099/134] fix: replacements in the file structure descriptor

The documented replacement of parts of the ID was never recognised.
---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 0a782e7..5659107 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -742,7 +742,7 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
     """
     IDlist = ID.split('.')
     if ('(' in part) and (')' in part):
-        trans = re.search('(.*?)', part).group(0)
+        trans = re.search(r'\(.*\)', part).group(0)
     else:
         trans = None
     # in case there is something to translate remove from the filepart
-- 
2.43.0


From 2faa354cc84702cc07304da643725e35e67c19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 100/134] fix: do not evaluate folder names

Any folder of four characters that is not a year made the list of
available stations fail (or ran its name as code).
---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 5659107..c02a624 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -159,7 +159,7 @@ class Store_Client(object):
             os.path.join(self.sds_root, '????', network, '*'))
         statlist = []
         for path in oslist:
-            if not isinstance(eval(path.split(os.path.sep)[-3]), int):
+            if not path.split(os.path.sep)[-3].isdigit():
                 continue
             # Add all network and station combinations to list
             code = path.split(os.path.sep)[-2:]
-- 
2.43.0


From ac6ac24dac0c20b4f1ff29ddf25f23e0aa12bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 101/134] fix: folders without data are not in the database

The search for the first or last day ran out of the list of years
instead of reporting that there are no data.
---
 src/seismic/trace_data/waveform.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c02a624..0a68463 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -795,20 +795,18 @@ def get_day_in_folder(
     :rtype: UTCDateTime
     """
     if type == 'start':
-        i0 = 0
         ii = 1
     elif type == 'end':
-        i0 = -1
         ii = -1
     else:
         raise NotImplementedError('Type has to be either start or end.')
     julday = None
-    while not julday:
+    for year in dirlist[::ii]:
         # if the folder is empty julday will stay False
-        year = dirlist[i0]
         julday = [i.split('.')[-1] for i in glob.glob(
             os.path.join(root, year, network, station, channel, '*'))]
-        i0 += ii
+        if julday:
+            break
     if not julday:
         raise FileNotFoundError(
             'Station %s.%s not in database' % (network, station))
-- 
2.43.0


From 1f034a6f2a4ea0dd93f541c6e4e7df9b9e6d11df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 102/134] fix: read only clients do not write the inventory

They extended the local archive nevertheless and failed if it has no
inventory folder.
---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 0a68463..2fb64fa 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -389,6 +389,8 @@ class Store_Client(object):
             self.inventory += ninv
         else:
             self.inventory = ninv
+        if self.read_only:
+            return
         fname = os.path.join(
             self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
         ninv.write(fname, format="STATIONXML", validate=True)
-- 
2.43.0


From 0a7596a76c49d44eaa9bc3b94359d20eddb31309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 103/134] fix: keep the responses of all channels of a station

The file with the inventory of a station was replaced by the response of
the channel that was fetched last.
---
 src/seismic/trace_data/waveform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 2fb64fa..4224335 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -393,6 +393,9 @@ class Store_Client(object):
             return
         fname = os.path.join(
             self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
+        # keep what is already known about the station
+        ninv = self.inventory.select(
+            network=ninv[0].code, station=ninv[0][0].code, keep_empty=True)
         ninv.write(fname, format="STATIONXML", validate=True)
 
     def _generate_time_windows(
-- 
2.43.0


From 1ee29ba00879ddd784956649c466685109ea3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 104/134] fix: leave out windows with gaps

The spectrum ignored the mask and used uninitialised memory instead of
the missing samples.
---
 src/seismic/utils/raw_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 54961cc..4b0bbd2 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -74,6 +74,8 @@ def spct_series_welch(
             continue
         for wintr in tr.slide(window_length=window_length, step=window_length):
             try:
+                if np.ma.is_masked(wintr.data):
+                    raise ValueError('Window contains gaps.')
                 f, S = welch(wintr.data, fs=wintr.stats.sampling_rate)
                 # interpolate onto a logarithmic frequency space
                 # 512 points of resolution in f direction hardcoded for now
-- 
2.43.0


From 2c7492a25d6377a1b217e124826555e37bb843d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 105/134] fix: spectrograms if the first process has no data

The frequencies were only known to the processes that computed a
spectrum.
---
 src/seismic/utils/raw_analysis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 4b0bbd2..0152c57 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -51,6 +51,7 @@ def spct_series_welch(
     rank = comm.Get_rank()
     psize = comm.Get_size()
     specl = []
+    f2 = None
     # List of actually available times
     t = []
     for ii, st in enumerate(streams):
@@ -91,6 +92,7 @@ def spct_series_welch(
     # Gather all the data
     specl = comm.gather(specl, root=0)
     t = comm.gather(t, root=0)
+    f2 = comm.gather(f2, root=0)
     if rank == 0:
         # Flatten the list
         specl = [item for sublist in specl for item in sublist]
@@ -102,11 +104,12 @@ def spct_series_welch(
         # Convert to numpy array
         S = np.array(specl)
         t = np.array(t)
-        try:
-            return f2, t, S.T
-        except UnboundLocalError:
+        # Not every rank has data
+        f2 = [f for f in f2 if f is not None]
+        if not f2:
             raise ValueError(
                 'A spectrum could not be computed. Check earlier log messages')
+        return f2[-1], t, S.T
     else:
         return None, None, None
 
-- 
2.43.0


From cbf07dcbc61763494ba2a42f7aa7c725bb5459cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 106/134] fix: read no data after the end time

The last increment was always read completely.
---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 4224335..f25939e 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -424,7 +424,7 @@ class Store_Client(object):
         starttimes = starttime.timestamp + np.arange(
             0, endtime.timestamp-starttime.timestamp, increment)
         for start in starttimes:
-            end = UTCDateTime(start + increment)
+            end = min(UTCDateTime(start + increment), endtime)
             st = self._load_local(
                 network, station, '*', channel, UTCDateTime(start), end,
                 attach_response=True, _check_times=False)
-- 
2.43.0


From fb57b54a92ed08b7706867fff7119dc44f8e657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 107/134] fix: read multiples of the window length

A read increment that is not a multiple of the window length dropped the
window at the end of each increment.
---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index f25939e..6a88abe 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -473,6 +473,8 @@ class Store_Client(object):
             raise ValueError(
                 'read_increment must be >= win_len, got {} and {}'.format(
                     read_increment, win_len))
+        # no window must be cut by the end of an increment
+        read_increment -= read_increment % win_len
         data_gen = self._generate_time_windows(
             network, station, channel, starttime, endtime, read_increment)
         return spct_series_welch(
-- 
2.43.0


From fd7088790adbeafaf2f4976aa60fb3e5567d6103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 108/134] fix: skip corrupt files when plotting several dvs

They were announced to be skipped but the previous result was drawn
again.
---
 src/seismic/plot/plot_multidv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index fc86762..734251a 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -85,6 +85,7 @@ def plot_multiple_dv(
             dv = read_dv(fi)
         except Exception:
             warn('Corrupt file %s discovered...skipping.' % fi)
+            continue
         val = -dv.value
         if plt_abs:
             val = abs(val)
-- 
2.43.0


From 05972a903a54cc9de89d174716b044e5ab4a776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 109/134] fix: do not overwrite earlier default figures

The third figure with the default name replaced the second.
---
 src/seismic/plot/plot_dv.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index 5928551..fbbfc35 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -134,9 +134,8 @@ def plot_technical_dv(
         exist = os.path.isfile(os.path.join(save_dir, fname))
         i = 0
         while exist:
-            fname = "%s_%i" % (figure_file_name, i)
-            exist = os.path.isfile(os.path.join(save_dir,
-                                                fname + '_change.png'))
+            fname = "%s_%i_change.png" % (figure_file_name, i)
+            exist = os.path.isfile(os.path.join(save_dir, fname))
             i += 1
         figure_file_name = fname
 
-- 
2.43.0


From 691d94a182ac8748a7e657cd18884da5d3cfb72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 110/134] fix: draw similarities at their values

The values have the opposite sign of the stretching. The limits of the
image are only those of the axis if it is symmetric.
---
 src/seismic/plot/plot_dv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index fbbfc35..e0c75ed 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -213,7 +213,7 @@ def plot_technical_dv(
     # Set extent so we can treat the axes properly (mainly y)
     if plot_sim_mat:
         imh.set_extent((
-            0, sim_mat.shape[0], stretch_vect[-1], stretch_vect[0]))
+            0, sim_mat.shape[0], -stretch_vect[0], -stretch_vect[-1]))
 
     ###
     if xlim:
-- 
2.43.0


From a97e96a5ca667ca540cf0b31160e1e16a407c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 111/134] fix: show the whole range of the searched values

The limits left out values beyond the largest positive one.
---
 src/seismic/plot/plot_dv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index e0c75ed..634edf3 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -159,7 +159,7 @@ def plot_technical_dv(
         sim_mat = sim_mat/np.tile(
             np.max(sim_mat, axis=1), (sim_mat.shape[1], 1)).T
 
-    stretching_amount = np.max(stretch_vect)
+    stretching_amount = np.max(np.abs(stretch_vect))
 
     # Adapt plot details in agreement with the type of dictionary that
     # has been passed
-- 
2.43.0


From 98e596a5833d65834dfe6cd538db4dcd53c52651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 112/134] fix: colour limits of spectrograms

matplotlib does not accept limits next to a norm.
---
 src/seismic/plot/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index 919be0e..655619a 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -123,7 +123,7 @@ def plot_spct_series(
     S /= S.max()
     pcm = plt.pcolormesh(
         t, f, S, shading='gouraud', cmap=cmap,
-        norm=colors.LogNorm(), vmin=vmin, vmax=vmax)
+        norm=colors.LogNorm(vmin=vmin, vmax=vmax))
     plt.colorbar(
         pcm, label='Energy (normalised)', orientation='horizontal', shrink=.6,
         pad=.25)
-- 
2.43.0


From bfed6bc8669757caf7f997df12fa65cdc4f0ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 113/134] fix: draw each result once

Results that match several of the filters were drawn for each of them.
---
 src/seismic/plot/plot_multidv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index 734251a..3fa326d 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -79,7 +79,8 @@ def plot_multiple_dv(
         infiles_new = []
         for filt in statfilter:
             infiles_new.extend(fnmatch.filter(infiles, filt))
-        infiles = infiles_new
+        # a file can match several filters
+        infiles = sorted(set(infiles_new))
     for fi in infiles:
         try:
             dv = read_dv(fi)
-- 
2.43.0


From 1f3819a19283cd42f07ee6bdfbab19d74371e1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 114/134] fix: plot results without similarity matrix

Shifts that are measured without keeping the matrix have None.
---
 src/seismic/plot/plot_dv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index 634edf3..ac77466 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -148,7 +148,7 @@ def plot_technical_dv(
     sim_mat = dv.sim_mat
     stretch_vect = dv.second_axis
     stats = dv.stats
-    plot_sim_mat = sim_mat.size > 0
+    plot_sim_mat = sim_mat is not None and sim_mat.size > 0
 
     rtime = np.array(
         [utcdt.datetime for utcdt in stats['corr_start']],
-- 
2.43.0


From cdb9245b0ce0a5ed31d2a66ac3b446ad6a5fb277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 115/134] fix: create the coherence folder from every process

Only rank 0 created the output folder, without synchronisation: coherences
that another rank finished first could not be written and were dropped
from the averages.
---
 src/seismic/monitor/monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index d70235e..939dd66 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -608,8 +608,8 @@ class Monitor(object):
         cb = cst.create_corr_bulk(inplace=True)
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
-        if self.rank == 0:
-            os.makedirs(outdir, exist_ok=True)
+        # any of the processes may be the first one to write
+        os.makedirs(outdir, exist_ok=True)
 
         # for possible rest bits
         del cst
-- 
2.43.0


From dfa064c824e8337b4829c48b16e3df383c4392b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 116/134] fix: fetch the response of the station that lacks it

If the response of one of the traces was missing, the response of the
first station in the stream was fetched from the remote source. The
responses that had been removed already were removed a second time and
the preprocessing failed for all stations.
---
 src/seismic/correlate/correlate.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index bcae4a6..97f51eb 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1376,17 +1376,22 @@ def preprocess_stream(
 
     inv = store_client.inventory
     if remove_response:
-        try:
-            st.remove_response(taper=False, inventory=inv)
-        except ValueError:
-            print('Station response not found ... loading from remote.')
-            # missing station response
-            ninv = store_client.rclient.get_stations(
-                network=st[0].stats.network, station=st[0].stats.station,
-                channel='*', level='response')
-            st.remove_response(taper=False, inventory=ninv)
-            store_client._write_inventory(ninv)
-            inv += ninv
+        remote = {}
+        for tr in st:
+            try:
+                tr.remove_response(taper=False, inventory=inv)
+            except ValueError:
+                # missing station response
+                sta = (tr.stats.network, tr.stats.station)
+                if sta not in remote:
+                    print(
+                        'Station response not found ... loading from remote.')
+                    remote[sta] = store_client.rclient.get_stations(
+                        network=sta[0], station=sta[1], channel='*',
+                        level='response')
+                    # also extends the inventory of the client
+                    store_client._write_inventory(remote[sta])
+                tr.remove_response(taper=False, inventory=remote[sta])
 
     # Sometimes Z has reversed polarity
     if inv:
-- 
2.43.0


From 90e8a976d362682b3df02509fdd8c5098580aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 117/134] fix: correct polarities despite a station without
 metadata

The orientation of one trace that could not be found kept those of all
later ones from being corrected.
---
 src/seismic/utils/miic_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 64d7c15..4e73778 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -436,9 +436,14 @@ def correct_polarity(st: Stream, inv: Inventory):
     """
     st_z = st.select(component='Z')
     for tr in st_z:
-        dip = inv.get_orientation(
-            tr.id, datetime=tr.stats.starttime)['dip']
-        if dip > 0:
+        try:
+            dip = inv.get_orientation(
+                tr.id, datetime=tr.stats.starttime)['dip']
+        except Exception as e:
+            # The others should be corrected nevertheless
+            logging.warning(f'Orientation of {tr.id} unknown: {e}')
+            continue
+        if dip is not None and dip > 0:
             tr.data *= -1
 
 
-- 
2.43.0


From 051101c55397f913f0eb3dc2d4da51ee9060e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 118/134] fix: label the axes the velocity map is drawn into

With an axis given that is not the current one, the labels were put on
the current axis.
---
 src/seismic/monitor/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index b91b1f2..6b6110e 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -971,9 +971,9 @@ class DVGrid(object):
                 self.statx, self.staty, marker='v', c='k', edgecolors='white',
                 s=30)
         plt.colorbar(
-            map, label=r'$\frac{dv}{v}$ [%]', orientation='horizontal')
-        plt.xlabel('Easting [km]')
-        plt.ylabel('Northing [km]')
+            map, ax=ax, label=r'$\frac{dv}{v}$ [%]', orientation='horizontal')
+        ax.set_xlabel('Easting [km]')
+        ax.set_ylabel('Northing [km]')
         return ax
 
     def align_dvs_to_grid(
-- 
2.43.0


From 073416e50e3267b62f3f50912699013a43f5abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:30 +0000
Subject: [PATCH 119/134] fix: leave out stations sampled too coarsely

If only some of the stations read at a time have a sampling rate below
the requested one, they kept their rate and were correlated sample by
sample with the others.
---
 src/seismic/correlate/correlate.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 97f51eb..0fb187d 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -524,6 +524,15 @@ class Correlator(object):
             # Check sampling frequency
             sampling_rate = self.options['sampling_rate']
             # AA-Filter is done in this function as well
+            # Coarser data cannot be correlated with the others
+            for tr in st.traces.copy():
+                sr = tr.stats.sampling_rate
+                if sr < sampling_rate and not np.isclose(sr, sampling_rate):
+                    self.logger.error(
+                        f'{tr.id} is not used for time {startt}. Its sampling '
+                        f'rate {sr} Hz is lower than the requested one.')
+                    st.remove(tr)
+
             try:
                 st = mu.resample_or_decimate(st, sampling_rate)
             except ValueError as e:
-- 
2.43.0


From 31d439bce2f39c70a073eb0b2bcfb80e30ab17b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:01 +0000
Subject: [PATCH 120/134] fix: skip a time window in all processes

If preparing the data failed in one process, this process went on with
the next time window while the others waited for it.
---
 src/seismic/correlate/correlate.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 0fb187d..8ef71e1 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -533,6 +533,7 @@ class Correlator(object):
                         f'rate {sr} Hz is lower than the requested one.')
                     st.remove(tr)
 
+            failed = False
             try:
                 st = mu.resample_or_decimate(st, sampling_rate)
             except ValueError as e:
@@ -540,14 +541,16 @@ class Correlator(object):
                     'Downsampling failed for '
                     f'{st[0].stats.network}.{st[0].stats.station} and time'
                     f' {t}.\nThe Original Error Message was {e}.')
-                continue
+                failed = True
             # The actual data in the mseeds was changed from int to float64
             # now,
             # Save some space by changing it back to 32 bit (most of the
             # digitizers work at 24 bit anyways)
             mu.stream_require_dtype(st, np.float32)
 
-            if not self.options['preprocess_subdiv']:
+            if failed:
+                pass
+            elif not self.options['preprocess_subdiv']:
                 try:
                     self.logger.debug('Preprocessing stream...')
                     st = preprocess_stream(
@@ -558,12 +561,16 @@ class Correlator(object):
                         'Stream preprocessing failed for '
                         f'{st[0].stats.network}.{st[0].stats.station} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
-                    continue
+                    failed = True
             else:
                 # The windows start at startt, even if data start later
                 st.merge()
                 st.trim(startt, endt, pad=True)
 
+            # All processes have to take part in the loop below or none
+            if any(self.comm.allgather(failed)):
+                continue
+
             # Slice the stream in correlation length
             # -> Loop over correlation increments
             for ii, win in enumerate(generate_corr_inc(st, **self.options)):
-- 
2.43.0


From 724bb1ca90d6fe6fe6d8398e350955ceaf1edf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:38 +0000
Subject: [PATCH 121/134] fix: normalise components jointly with several
 processes

The traces were distributed over the processes without regard to the
groups of three that are normalised together.
---
 src/seismic/correlate/correlate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 8ef71e1..a2bddb1 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -675,7 +675,12 @@ class Correlator(object):
         # time domain processing
         # map of traces on processes
         ntrc = A.shape[0]
-        pmap = np.arange(ntrc)*self.psize/ntrc
+        # traces that are normalised jointly have to stay together
+        joint = 3 if any(
+            proc['args'].get('joint_norm')
+            for proc in self.options['corr_args']['FDpreProcessing']
+            if isinstance(proc['args'], dict)) else 1
+        pmap = np.arange(ntrc)//joint*joint*self.psize/ntrc
         # This step was not in the original but is necessary for it to work?
         # maybe a difference in an old python/np version?
         pmap = pmap.astype(np.int32)
-- 
2.43.0


From 70be1107d0c4f6542e1a8513133a7431bddd2877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 122/134] fix: tell stations of different networks apart when
 averaging

compute_components_average compared the station codes only: a result of
X.A1 with Y.A1 was taken for one of a single station.
---
 src/seismic/monitor/monitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 939dd66..e867d5a 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -426,7 +426,10 @@ class Monitor(object):
                     infiles.remove(f)
                     continue
                 components = f.split('.')[-2].split('-')
-                stations = f.split('.')[-3].split('-')
+                # network and station code of the two stations
+                stations = list(zip(*[
+                    code.split('-') for code
+                    in os.path.basename(f)[len('DV-'):].split('.')[:2]]))
                 if method.lower() == 'autocomponents':
                     # Remove those from combined channels
                     if components[0] != components[1] \
-- 
2.43.0


From 989b5c33a31ae636042979a3e4c9ec5a63792ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:32 +0000
Subject: [PATCH 123/134] fix: look for the first sample requested in the
 previous file

A file that starts exactly one sample after the requested time does not
contain the first sample: it may be the last one of the previous file.
---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 6a88abe..d2c1522 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -612,7 +612,7 @@ def read_from_filesystem(
 
     # if trace starts too late have a look in the previous section
     if (len(st) == 0) or (
-            (st[0].stats.starttime-st[0].stats.delta).datetime > starttime):
+            (st[0].stats.starttime-st[0].stats.delta).datetime >= starttime):
         fpattern, _ = _adjacent_filepattern(ID, starttime, fs, -1)
         if debug:
             print('Searching for files matching: %s\n at time %s\n' %
-- 
2.43.0


From 37bdd6fc8ecaaa69cb4d88b65aa4426ee01a067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:59 +0000
Subject: [PATCH 124/134] fix: draw the last time of a limited spectrogram

As for the frequencies, the sample closest to the upper limit belongs to
the window.
---
 src/seismic/plot/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index 655619a..2b2043f 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -89,7 +89,7 @@ def plot_spct_series(
     if tlim is not None:
         plt.xlim(tlim)
         ii = np.argmin(abs(t-tlim[0]))
-        jj = np.argmin(abs(t-tlim[1]))
+        jj = np.argmin(abs(t-tlim[1])) + 1
         t = t[ii:jj]
         S = S[:, ii:jj]
 
-- 
2.43.0


From e391df15f63d71f958dc7258cc02b66e0f617f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:34 +0000
Subject: [PATCH 125/134] fix: plot averages over all components of a station

Averages called StationWide or CrossStations are saved with the channel
av, those of auto- and cross-components with av-auto and av-xc.
---
 src/seismic/plot/plot_multidv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index 3fa326d..573fec4 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -68,7 +68,7 @@ def plot_multiple_dv(
     """
     set_mpl_params()
     if only_mean:
-        pat = os.path.join(indir, '*.av-*.npz')
+        pat = os.path.join(indir, '*.av*.npz')
     else:
         pat = os.path.join(indir, '*.npz')
     statcodes = []
-- 
2.43.0


From f9dc0a2bc4653a2b078b86358453424cce37ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 126/134] fix: draw correlations into the axes given

plot_cst, its heat maps, limits and titles used the current axes, not
the ones passed with ax.
---
 src/seismic/plot/plot_correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index 6a0a335..675eb65 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -36,6 +36,7 @@ def plot_ctr(
         ax = plt.gca()
         axtmp = None
     else:
+        plt.sca(ax)
         fig = plt.gcf()
         bbox = ax.get_window_extent().transformed(
             fig.dpi_scale_trans.inverted())
@@ -147,6 +148,8 @@ def plot_cst(
     if ax is None:
         plt.figure(figsize=(8, 6))
         ax = plt.axes()  # zorder=9999999
+    else:
+        plt.sca(ax)
     if sort_by == 'distance':
         sort_by = 'dist'
     cst.sort(keys=[sort_by, 'network', 'station', 'channel'])
-- 
2.43.0


From db597150a1822ac76a9b952d78a3b5c57f63ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 127/134] fix: label the axes given for velocity changes

The title, label, limits and grid went to the current axes instead of
the ones passed with ax.
---
 src/seismic/plot/plot_dv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index ac77466..e4704c3 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -35,6 +35,7 @@ def plot_fancy_dv(
     if not ax:
         fig = plt.figure(figsize=(12, 8))
     else:
+        plt.sca(ax)
         fig = ax.get_figure()
 
     val = -dv.value[~np.isnan(dv.corr)]*100
-- 
2.43.0


From e65c3747aad2654881ca64de7af3ac6b3ae7d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:18 +0000
Subject: [PATCH 128/134] fix: normalise spectrograms with missing times

Norm and median ignored the mask, so that one missing time left nothing
to be drawn.
---
 src/seismic/plot/plot_spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index 2b2043f..7da2f6b 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -98,20 +98,21 @@ def plot_spct_series(
         pass
     elif norm == 'f':
         if norm_method == 'linalg':
-            S = np.divide(S, np.linalg.norm(S, axis=1)[:, np.newaxis])
+            S = np.divide(
+                S, np.sqrt((abs(S)**2).sum(axis=1))[:, np.newaxis])
         elif norm_method == 'mean':
             S = np.divide(S, np.mean(S, axis=1)[:, np.newaxis])
         elif norm_method == 'median':
-            S = np.divide(S, np.median(S, axis=1)[:, np.newaxis])
+            S = np.divide(S, np.ma.median(S, axis=1)[:, np.newaxis])
         else:
             raise ValueError('Normalisation method %s unkown.' % norm_method)
     elif norm == 't':
         if norm_method == 'linalg':
-            S = np.divide(S, np.linalg.norm(S, axis=0))
+            S = np.divide(S, np.sqrt((abs(S)**2).sum(axis=0)))
         elif norm_method == 'mean':
             S = np.divide(S, np.mean(S, axis=0))
         elif norm_method == 'median':
-            S = np.divide(S, np.median(S, axis=0))
+            S = np.divide(S, np.ma.median(S, axis=0))
         else:
             raise ValueError('Normalisation method %s unkown.' % norm_method)
     else:
-- 
2.43.0


From 355259c48430d0da59a00d2d1b73a344110b42a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:43 +0000
Subject: [PATCH 129/134] fix: draw single correlations into the axes given

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index f115307..075bc97 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1003,7 +1003,7 @@ class CorrStream(Stream):
             :func:`~seismic.correlate.stream.CorrStream.select`.
         """
         if self.count() == 1:
-            return self[0].plot(tlim=timelimits)
+            return self[0].plot(tlim=timelimits, ax=ax)
         ax = plot_cst(
             self, sort_by=sort_by, timelimits=timelimits, ylimits=ylimits,
             scalingfactor=scalingfactor, ax=ax, linewidth=linewidth,
-- 
2.43.0


From 4d31e5021a7a7f3e7d4633db2909527e6bfedf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:07 +0000
Subject: [PATCH 130/134] fix: keep trace headers when combining SAC
 coordinates

combine_stats wrote the whole sac header into the header of each input
trace. For a trace that had been cut this replaced npts (and the
sampling rate by its single precision value), and the second combination
with the same trace had no coordinates.
---
 src/seismic/correlate/stream.py | 2 --
 src/seismic/utils/miic_utils.py | 8 ++++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 075bc97..737f4a4 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1532,8 +1532,6 @@ def combine_stats(
             stats['evla'] = stats2.sac.stla
             stats['evlo'] = stats2.sac.stlo
             stats['evel'] = stats2.sac.stel
-            stats1.update(stats1['sac'])
-            stats2.update(stats2['sac'])
 
         az, baz, dist = m3ut.trace_calc_az_baz_dist(stats1, stats2)
 
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 4e73778..eff1d99 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -37,7 +37,8 @@ def trace_calc_az_baz_dist(stats1: Stats, stats2: Stats) -> Tuple[
     This funtions calculates the azimut, back azimut and distance between tr1
     and tr2 if both have geo information in their stats dictonary.
     Required fields are:
-    ``tr.stats.sac.stla`` and ``tr.stats.sac.stlo``
+    ``tr.stats.stla`` and ``tr.stats.stlo`` or ``tr.stats.sac.stla`` and
+    ``tr.stats.sac.stlo``.
 
     :type stats1: :class:`~obspy.core.Stats`
     :param stats1: First trace to account
@@ -65,8 +66,11 @@ def trace_calc_az_baz_dist(stats1: Stats, stats2: Stats) -> Tuple[
         print("Update obspy.")
         return
 
+    coords1, coords2 = [
+        stats if 'stla' in stats and 'stlo' in stats else stats['sac']
+        for stats in (stats1, stats2)]
     dist, az, baz = gps2dist_azimuth(
-        stats1['stla'], stats1['stlo'], stats2['stla'], stats2['stlo'])
+        coords1['stla'], coords1['stlo'], coords2['stla'], coords2['stlo'])
 
     return az, baz, dist
 
-- 
2.43.0


From 5c91b76395976761e35149f7f92167123681ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 131/134] fix: take queries with wildcards as they are
 requested

DBHandler.get_data sorts the codes of a request, and a wildcard sorts
before any letter. HHE-HH? of one station was thus looked up as
HH?-HHE, which finds nothing that is stored.
---
 src/seismic/db/corr_hdf5.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 56308c2..66533b8 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -249,11 +249,9 @@ omitted." % path, category=UserWarning)
         # Make sure the request is structured correctly
         sort = ['.'.join([net, stat, chan]) for net, stat, chan in zip(
                 network.split('-'), station.split('-'), channel.split('-'))]
-        sorted = sort.copy()
-        sorted.sort()
-        if sorted != sort:
+        if _is_swapped(*sort[:2]):
             network, station, channel = ['-'.join([a, b]) for a, b in zip(
-                sorted[0].split('.'), sorted[1].split('.'))]
+                sort[1].split('.'), sort[0].split('.'))]
 
         if isinstance(corr_start, UTCDateTime):
             corr_start = corr_start.format_fissures()
@@ -433,6 +431,30 @@ class CorrelationDataBase(object):
             return False
 
 
+def _is_swapped(code0: str, code1: str = None) -> bool:
+    """
+    Check whether two codes (network.station.channel) are requested in the
+    opposite of the alphabetical order, in which correlations are stored. If
+    the order depends on a wildcard, it is taken as requested.
+
+    :param code0: First code
+    :type code0: str
+    :param code1: Second code, None if only one code (i.e., wildcards instead
+        of combinations) is given.
+    :type code1: str, optional
+    :return: True if the codes have to be swapped.
+    :rtype: bool
+    """
+    if code1 is None:
+        return False
+    for char0, char1 in zip(code0, code1):
+        if char0 in '*?' or char1 in '*?':
+            return False
+        elif char0 != char1:
+            return char0 > char1
+    return len(code0) > len(code1)
+
+
 def all_traces_recursive(
     group: h5py._hl.group.Group, stream: CorrStream,
         pattern: str) -> CorrStream:
-- 
2.43.0


From 7d7c2abd1425e17ec93dd82a34e569ccc6aba739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:35 +0000
Subject: [PATCH 132/134] fix: allow all components with component None

The parameter file and the documentation offer None, besides * and ?, to
allow all components. That raised a TypeError, or, read from yaml as the
string 'None', no data were found.
---
 src/seismic/trace_data/waveform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index d2c1522..847b35f 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -231,7 +231,7 @@ class Store_Client(object):
 
     def _translate_wildcards(
         self, network: str, station: str,
-            component: str = '?') -> List[List[str]]:
+            component: str | None = '?') -> List[List[str]]:
         """
         Look up network and station names in database, so that wildcards
         can be estimated into number of stations.
@@ -240,11 +240,14 @@ class Store_Client(object):
         :type network: str
         :param station: station string, may contain wildcards
         :type station: str
-        :param componnt: component, i.e. Z, N, E or ? as wildcard
+        :param componnt: component, i.e. Z, N, E or ? as wildcard. None, also
+            as a string (i.e., from yaml), allows all components.
         type componnt str
         :return: _description_
         :rtype: _type_
         """
+        if component is None or component == 'None':
+            component = '?'
         dirlist = glob.glob(
             os.path.join(
                 self.sds_root, '*', network, station, '??'+component+'.?'))
-- 
2.43.0


From e4b3562e2e896c69308437ef8eb6c4d3dc63807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:01 +0000
Subject: [PATCH 133/134] fix: median of velocity changes at different times

The median was taken over the positions in the arrays, although each
result in the folder comes with its own times.
---
 src/seismic/plot/plot_multidv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index 573fec4..d6b4fa8 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -90,15 +90,17 @@ def plot_multiple_dv(
         val = -dv.value
         if plt_abs:
             val = abs(val)
-        vals.append(val)
         rtime = [utcdt.datetime for utcdt in dv.stats['corr_start']]
         plt.plot(rtime, val, '.', markersize=.25)
-        vals.append(val)
+        vals.append(dict(zip(rtime, val)))
         ax = plt.gca()
         statcodes.append(dv.stats.station)
     ax.xaxis.set_major_locator(mpl.dates.AutoDateLocator())
     if plot_median:
-        mean = np.nanmedian(vals, axis=0)
+        # the results do not have to share their times
+        rtime = sorted(set().union(*vals))
+        mean = np.nanmedian(
+            [[val.get(t, np.nan) for t in rtime] for val in vals], axis=0)
         plt.plot(rtime, mean, 'k')
         statcodes.append('median')
 
-- 
2.43.0


From 3a6f6f8f45405b6fc2f91cb420257c6decd2d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:06 +0000
Subject: [PATCH 134/134] fix: align files of bulk downloads with days

The chunks of a download starting at noon lasted until the next noon, but
were stored in the file of the first day.
---
 src/seismic/trace_data/waveform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 847b35f..a02c5c8 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -94,9 +94,10 @@ class Store_Client(object):
             maxlongitude=maxlon)
 
         restrictions = Restrictions(
-            starttime=starttime,
+            # Chunk it to have one file per day. The files of the archive hold
+            # the data from midnight to midnight
+            starttime=UTCDateTime(UTCDateTime(starttime).date),
             endtime=endtime,
-            # Chunk it to have one file per day.
             chunklength_in_sec=86400,
             # Considering the enormous amount of data associated with
             # continuous requests, you might want to limit the data based on
-- 
2.43.0

