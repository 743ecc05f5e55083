From 0c27f694a3be418644cd4fb62af1f999fc00e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:43 +0000
Subject: [PATCH 01/38] fix: qu2ro writes the identity rotation into its own
 row

Near-identity quaternions assigned to whole rows 0..3 of the output array
(out of bounds for fewer than four rows, overwriting other results
otherwise) and left their own row unset.
---
 pyebsdindex/rotlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e6dfd2c..e86db99 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -788,10 +788,10 @@ def qu2roL(quIn,p=P):
       for j in range(3):
         mag += qu[i,j + 1] ** 2
       if mag < eps:
-        ro[0] = 0.0
-        ro[1] = 0.0
-        ro[2] = -pf
-        ro[3] = 0.0
+        ro[i,0] = 0.0
+        ro[i,1] = 0.0
+        ro[i,2] = -pf
+        ro[i,3] = 0.0
       else:
         mag = 1.0 / np.sqrt(mag)
         q0 = qu[i,0]
-- 
2.43.0


From 5f50b614905b5ac39f162868a7014135c6383427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 02/38] fix: eu2ax handles half-turns and the convention sign
 of the axis

---
 pyebsdindex/rotlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e86db99..efd8c30 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -135,7 +135,7 @@ def eu2axL(euIn,p=P):
     delt = 0.50 * (eu[i,0] - eu[i,2])
     tau = np.sqrt(t * t + ssig * ssig)
 
-    if (np.abs(sig - PI2) < eps):
+    if (np.abs(np.cos(sig)) < eps):
       alpha = PI
     else:
       alpha = 2.0 * np.arctan(tau / np.cos(sig))
@@ -148,7 +148,7 @@ def eu2axL(euIn,p=P):
     else:
       ax[i,0] = -1.0 * pf * t * np.cos(delt) / tau
       ax[i,1] = -1.0 * pf * t * np.sin(delt) / tau
-      ax[i,2] = -1.0 * ssig / tau
+      ax[i,2] = -1.0 * pf * ssig / tau
       ax[i,3] = alpha
 
     if alpha < 0.0:
-- 
2.43.0


From 2ff9c9d64355bbca0ecfb18cf00816720d9e9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 03/38] fix: qu2om and om2qu follow the passive/active
 convention argument

---
 pyebsdindex/rotlib.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index efd8c30..e166667 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -539,13 +539,13 @@ def qu2omL(quIn,p=P):
     q0 = qu[i,0] * pf
     qq = q0 * q0 - (qu[i,1] ** 2 + qu[i,2] ** 2 + qu[i,3] ** 2)
     om[i,0,0] = qq + 2.0 * qu[i,1] * qu[i,1]
-    om[i,0,1] = 2.0 * (qu[i,1] * qu[i,2] - qu[i,0] * qu[i,3])
-    om[i,0,2] = 2.0 * (qu[i,1] * qu[i,3] + qu[i,0] * qu[i,2])
-    om[i,1,0] = 2.0 * (qu[i,2] * qu[i,1] + qu[i,0] * qu[i,3])
+    om[i,0,1] = 2.0 * (qu[i,1] * qu[i,2] - q0 * qu[i,3])
+    om[i,0,2] = 2.0 * (qu[i,1] * qu[i,3] + q0 * qu[i,2])
+    om[i,1,0] = 2.0 * (qu[i,2] * qu[i,1] + q0 * qu[i,3])
     om[i,1,1] = qq + 2.0 * qu[i,2] * qu[i,2]
-    om[i,1,2] = 2.0 * (qu[i,2] * qu[i,3] - qu[i,0] * qu[i,1])
-    om[i,2,0] = 2.0 * (qu[i,3] * qu[i,1] - qu[i,0] * qu[i,2])
-    om[i,2,1] = 2.0 * (qu[i,3] * qu[i,2] + qu[i,0] * qu[i,1])
+    om[i,1,2] = 2.0 * (qu[i,2] * qu[i,3] - q0 * qu[i,1])
+    om[i,2,0] = 2.0 * (qu[i,3] * qu[i,1] - q0 * qu[i,2])
+    om[i,2,1] = 2.0 * (qu[i,3] * qu[i,2] + q0 * qu[i,1])
     om[i,2,2] = qq + 2.0 * qu[i,3] * qu[i,3]
 
     tr = om[i,0,0] + om[i,1,1] + om[i,2,2]
@@ -726,6 +726,8 @@ def om2quL(om, p=P):
         qu[i,1] = (om[i,0,2] + om[i,2,0]) / s
         qu[i,2] = (om[i,1,2] + om[i,2,1]) / s
         qu[i,3] = 0.25 * s
+    # the scalar part carries the sign of the convention
+    qu[i,0] *= pf
   qu = quatnormL(qu)
   return qu
 
-- 
2.43.0


From 9b37ac4ea7973c032afaeda9d0efc9fc4ad8902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:10 +0000
Subject: [PATCH 04/38] fix: om2eu keeps the rotation when the second Euler
 angle is 180 degrees

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e166667..708c9c4 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -221,7 +221,7 @@ def om2euL(om, p=P):
         eu[i,1] = 0.0
         eu[i,2] = 0.0
       else:
-        eu[i,0] = -np.arctan2(om[i,0,1],om[i,0,0])
+        eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])
         eu[i,1] = PI
         eu[i,2] = 0.0
     eu[i,0] += 100.0 * PI
-- 
2.43.0


From d57deac54bd05b4021bf6d5ff4ff3c7f7e617424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 05/38] fix: a pattern indexed in one phase is never reported
 as unindexed because its fit exceeds 3 degrees

---
 pyebsdindex/_ebsd_index_single.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 5cb8032..5385119 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -786,6 +786,9 @@ class EBSDIndexer:
                 #    indxData[j + 1, :],
                 phasetest = ((3.0 - indxData[j, :]["fit"]) * indxData[j, :]["nmatch"]) \
                             > ((3.0 - indxData[-1, :]["fit"]) * indxData[-1, :]["nmatch"])
+                # any solution is preferred to no solution.
+                found = indxData[j, :]["phase"] >= 0
+                phasetest = found & (phasetest | (indxData[-1, :]["phase"] < 0))
                 whbetter = np.nonzero(phasetest)
                 indxData[-1, whbetter] = indxData[j, whbetter]
                 #banddataout['band_match_index'][whbetter,:] =  bandmatchindex[j,whbetter,:,:].squeeze()
-- 
2.43.0


From 74695ce24ee5ab3b1ed8f3f83050140a4530b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 06/38] fix: index_pats honours patstart and npats for patterns
 passed as an array

---
 pyebsdindex/_ebsd_index_single.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 5385119..f25ad2b 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -530,6 +530,9 @@ class EBSDIndexer:
             for the distributed indexing procedures.
         """
 
+        if (patsin is not None) and (len(patsin.shape) == 3) and ((patstart > 0) or (npats > 0)):
+            patend = patstart + npats if npats > 0 else patsin.shape[0]
+            patsin = patsin[patstart:patend, ...]
         pats, xyloc = self._getpats(patsin=patsin, patstart=patstart, npats=npats, xyloc=xyloc)
         # just a check that the band_detect is ready for this size pattern.
         if self.bandDetectPlan.patDim is None:
-- 
2.43.0


From 33ee2e8805904fc8aef8a070765332b4d645da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 07/38] fix: update_file keeps its own copy of the pattern
 dimensions

---
 pyebsdindex/_ebsd_index_single.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index f25ad2b..16fd72d 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -424,6 +424,9 @@ class EBSDIndexer:
             1D array with two values, the pattern height and width.
         """
 
+        # do not modify the shared default, or the array of the caller.
+        patDim = np.array(patDim)
+
         if filename is None:
             self.filein = None
             #self.bandDetectPlan.band_detect_setup(patDim=patDim)
-- 
2.43.0


From fc1e4aa25f7ba645188cc605348d9193c65319fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 08/38] fix: update_file sets up band detection that has no
 pattern dimensions yet

---
 pyebsdindex/_ebsd_index_single.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 16fd72d..08074ad 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -444,7 +444,8 @@ class EBSDIndexer:
                 self.fID.read_header()
             patDim[0:] = np.array([self.fID.patternH, self.fID.patternW])
 
-        if (patDim[0] != self.bandDetectPlan.patDim[0]) or \
+        if (self.bandDetectPlan.patDim is None) or \
+            (patDim[0] != self.bandDetectPlan.patDim[0]) or \
             (patDim[1] != self.bandDetectPlan.patDim[1]):
             # need to setup banddetect for new pattern dimensions.
             #print(patDim, self.bandDetectPlan.patDim)
-- 
2.43.0


From 6faef6a21e6f5189352cc20927d14308ca63dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 09/38] fix: NLPAR search windows stay inside the scan and the
 rows read

---
 pyebsdindex/nlpar_cpu.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 1bff137..ffa728b 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -411,6 +411,7 @@ class NLPAR:
 
       rowstartread = np.int64(max(0, j-sr))
       rowend = min(j + chunksize+sr,nrows)
+      rowend = max(rowend, min(rowstartread + 2*sr+1, nrows)) # the first rows need their full window
 
       if (rowend - rowstartread) < (2*sr+1):
         rowstartread = np.int64(max(0, rowend - (2*sr+1)))
@@ -685,12 +686,13 @@ class NLPAR:
     else:
       mxval *= np.float32(0.999)
     for i in numba.prange(ncols):
-      winstart_x = max((i - sr),0) - max((i + sr - (ncols - 1)),0)
-      winend_x = min((i + sr),(ncols - 1)) + max((sr - i),0) + 1
+      # the window is moved inside of the scan, and is smaller if the scan is smaller than the window.
+      winstart_x = max(max((i - sr),0) - max((i + sr - (ncols - 1)),0), 0)
+      winend_x = min(min((i + sr),(ncols - 1)) + max((sr - i),0) + 1, ncols)
       pairdict = numba.typed.Dict.empty(key_type=numba.core.types.uint64,value_type=numba.core.types.float32)
       for j in range(nrows):
-        winstart_y = max((j - sr),0) - max((j + sr - (nrows - 1)),0)
-        winend_y = min((j + sr),(nrows - 1)) + max((sr - j),0) + 1
+        winstart_y = max(max((j - sr),0) - max((j + sr - (nrows - 1)),0), 0)
+        winend_y = min(min((j + sr),(nrows - 1)) + max((sr - j),0) + 1, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
@@ -734,14 +736,14 @@ class NLPAR:
         #print('________________')
         # end of window scanning
         sum = np.float32(0.0)
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
 
           weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))
           weights[i_nn] = np.exp(-1.0 * weights[i_nn] * lam2)
           weights[i_nn] += diff_step[i_nn]
           sum += weights[i_nn]
 
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
           indx_nn = pindx[i_nn]
           weights[i_nn] /= sum
           #print(weights[i_nn], ' \n')
-- 
2.43.0


From bcf873a68e35bcf5ad538cafe677627968077c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 10/38] fix: NLPAR applies diff_offset once per pattern

---
 pyebsdindex/nlpar_cpu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index ffa728b..c9624c0 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -678,7 +678,6 @@ class NLPAR:
     shpdata = data.shape
     shpind = indices.shape
     winsz = np.int32((2*sr+1)**2)
-    diff_step =  np.zeros((winsz), dtype=np.float32)
 
     mxval = np.max(data)
     if saturation_protect == False:
@@ -696,6 +695,7 @@ class NLPAR:
 
         weights = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
+        diff_step = np.zeros(winsz, dtype=np.float32)
 
         indx_0 = i + ncols * j
         sigma0 = sigma[j,i]**2
@@ -708,7 +708,7 @@ class NLPAR:
 
             if indx_nn == indx_0:
               weights[counter] = np.float32(-1.0e6)
-              diff_step[counter] +=  diff_offset
+              diff_step[counter] =  diff_offset
             else:
               diff_step[counter] =  0.0
               pairid = getpairid(indx_0, indx_nn)
-- 
2.43.0


From a0803a7f3d72be922200cd78266d8901e9de44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 11/38] fix: calcsigma reads from the first row and counts
 every row once

---
 pyebsdindex/nlpar_cpu.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index c9624c0..d691fc5 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -486,7 +486,7 @@ class NLPAR:
     chunksize = np.int64(chunksize)
 
 
-    nn = np.uint64(nn)
+    nn = np.int64(nn)
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight,pwidth))
@@ -512,10 +512,7 @@ class NLPAR:
       data = data.reshape(data.shape[0], phw)
 
       #data = None
-      if rowend == nrows:
-        rowstartcount = np.asarray([j-rowstartread,rowcountread - (j-rowstartread) ], dtype=np.int64)
-      else:
-        rowstartcount = np.asarray([j-rowstartread,chunksize ], dtype=np.int64)
+      rowstartcount = np.asarray([j-rowstartread,min(chunksize, nrows-j)], dtype=np.int64)
 
       sigchunk, temp = self.sigma_numba(data,nn, rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
 
-- 
2.43.0


From 6d302c82a13c72e5c5ba3b9400c4fb0c77fb40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 12/38] fix: calcnlpar never uses a noise map that is reset or
 does not fit the scan

---
 pyebsdindex/nlpar_cpu.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index d691fc5..e4703ca 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -369,21 +369,19 @@ class NLPAR:
       self.mask = np.ones((pheight,pwidth), dtype=np.uint8)
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
+    if reset_sigma:
+      self.sigma = None
+
     calcsigma = False
     if self.sigma is None:
       calcsigma = True
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32)+1e24
-
-    if reset_sigma:
-      self.sigma = None
-
-    if (np.asarray(self.sigma).size == 1) and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+    elif np.asarray(self.sigma).size == 1:
+      tmp = np.asarray(self.sigma).flatten()[0]
       self.sigma =  np.zeros((nrows, ncols), dtype=np.float32)+tmp
-      calcsigma = False
 
     shpsigma = np.asarray(self.sigma).shape
-    if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+    if shpsigma != (nrows, ncols):
       self.sigma = np.zeros((nrows,ncols),dtype=np.float32) + 1e24
       calcsigma = True
 
-- 
2.43.0


From 8d82cc2052a030750bd0d45cf7993e2b635c45d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 13/38] fix: the noise map kept by NLPAR holds each pattern's
 own noise

---
 pyebsdindex/nlpar_cpu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index e4703ca..63f6476 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -275,7 +275,7 @@ class NLPAR:
 
       rowstartcount = np.asarray([0,rowcountread],dtype=np.int64)
       sigchunk, (d2,n2, dij) = self.sigma_numba(data,nn,rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
-      tmp = (sigma[j:j + rowstartcount[1],:] < sigchunk).choose( sigchunk, sigma[j:j + rowstartcount[1],:])
+      tmp = np.minimum(sigma[j:j + rowstartcount[1],:], sigchunk)
       sigma[j:j + rowstartcount[1],:] = tmp
 
 
@@ -429,7 +429,7 @@ class NLPAR:
       if calcsigma is True:
         sigchunk, tmp = self.sigma_numba(data,1,rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
         del tmp
-        tmp = (sigma[rowstartread:rowend,:] < sigchunk).choose(sigchunk,sigma[rowstartread:rowend,:])
+        tmp = np.minimum(sigma[rowstartread:rowend,:], sigchunk)
         sigma[rowstartread:rowend,:] = tmp
       else:
         sigchunk = sigma[rowstartread:rowend,:]
-- 
2.43.0


From b8b5b2a10eea78704d00aa701a3a4882e275aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 14/38] fix: bands with nearly equal angles get their triplet
 votes on the right poles

---
 pyebsdindex/tripletvote.py | 93 ++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 49 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index ddfbf78..ecd39ee 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -1040,16 +1040,12 @@ class BandIndexer():
             ##### end hard code argsrt ######
 
             srt2 = np.asarray(LUTTemp[:,srt[0],srt[1],srt[2]], dtype=np.int64).copy()
-            #unsrtFID = np.argsort(srt2,kind='quicksort').astype(np.int64)
-            #again, hard coding in the above for speed.
-            unsrtFID = np.array([0,1,2], dtype=np.uint64)
-            if srt2[unsrtFID[0]] > srt2[unsrtFID[2]]:
-              unsrtFID[2], unsrtFID[0] = unsrtFID[0], unsrtFID[2]
-            if srt2[unsrtFID[0]] > srt2[unsrtFID[1]]:
-              unsrtFID[1], unsrtFID[0] = unsrtFID[0], unsrtFID[1]
-            if srt2[unsrtFID[1]] > srt2[unsrtFID[2]]:
-              unsrtFID[2], unsrtFID[1] = unsrtFID[1], unsrtFID[2]
-            ##### end hard code argsrt ######
+            # the bands in the order of the sorted angles: the first band is in the angles 0 and 1,
+            # the second is in the angles 0 and 2, and the third in the angles 1 and 2.
+            bnd = np.array([i,j,k], dtype=np.int64)[srt2]
+            b0 = bnd[0]
+            b1 = bnd[1]
+            b2 = bnd[2]
             angtriSRT = np.asarray(angtri[srt], dtype = np.float32)
 
             #angTest0 = (np.abs(tripAngles - angtriSRT)).astype(np.float32)
@@ -1084,61 +1080,60 @@ class BandIndexer():
               #angTest2 = (angTest[q,0] + angTest[q,1] + angTest[q,2]) == 3
               #if angTest2:
               f = tripID[q,:]
-              f = f[unsrtFID]
               #print(angTest0[q,:])
               w1 = ( angTol - 0.5*(angTest0[0] + angTest0[1]) )
               w2 = ( angTol - 0.5*(angTest0[0] + angTest0[2]) )
               w3 = ( angTol - 0.5*(angTest0[1] + angTest0[2]) )
               #print(w1, w2, w3)
-              accumulatorW[p,f[0],i] += w1
-              accumulatorW[p,f[1],j] += w2
-              accumulatorW[p,f[2],k] += w3
-              accumulator[p,f[0], i] += 1
-              accumulator[p,f[1], j] += 1
-              accumulator[p,f[2], k] += 1
+              accumulatorW[p,f[0],b0] += w1
+              accumulatorW[p,f[1],b1] += w2
+              accumulatorW[p,f[2],b2] += w3
+              accumulator[p,f[0], b0] += 1
+              accumulator[p,f[1], b1] += 1
+              accumulator[p,f[2], b2] += 1
               t1 = False
               t2 = False
               t3 = False
-              if np.abs(angtriSRT[0] - angtriSRT[1]) < angTol:
-                accumulatorW[p,f[0],j] += w1
-                accumulatorW[p,f[1],i] += w2
-                accumulatorW[p,f[2],k] += w3
-                accumulator[p,f[0], j] += 1
-                accumulator[p,f[1], i] += 1
-                accumulator[p,f[2], k] += 1
-                t1 = True
               if np.abs(angtriSRT[1] - angtriSRT[2]) < angTol:
-                accumulatorW[p,f[0],i] += w1
-                accumulatorW[p,f[1],k] += w2
-                accumulatorW[p,f[2],j] += w3
-                accumulator[p,f[0], i] += 1
-                accumulator[p,f[1], k] += 1
-                accumulator[p,f[2], j] += 1
+                accumulatorW[p,f[0],b1] += w1
+                accumulatorW[p,f[1],b0] += w2
+                accumulatorW[p,f[2],b2] += w3
+                accumulator[p,f[0], b1] += 1
+                accumulator[p,f[1], b0] += 1
+                accumulator[p,f[2], b2] += 1
+                t1 = True
+              if np.abs(angtriSRT[0] - angtriSRT[1]) < angTol:
+                accumulatorW[p,f[0],b0] += w1
+                accumulatorW[p,f[1],b2] += w2
+                accumulatorW[p,f[2],b1] += w3
+                accumulator[p,f[0], b0] += 1
+                accumulator[p,f[1], b2] += 1
+                accumulator[p,f[2], b1] += 1
                 t2 = True
               if np.abs(angtriSRT[2] - angtriSRT[0]) < angTol:
-                accumulatorW[p,f[0],k] += w1
-                accumulatorW[p,f[1],j] += w2
-                accumulatorW[p,f[2],i] += w3
-                accumulator[p,f[0], k] += 1
-                accumulator[p,f[1], j] += 1
-                accumulator[p,f[2], i] += 1
+                accumulatorW[p,f[0],b2] += w1
+                accumulatorW[p,f[1],b1] += w2
+                accumulatorW[p,f[2],b0] += w3
+                accumulator[p,f[0], b2] += 1
+                accumulator[p,f[1], b1] += 1
+                accumulator[p,f[2], b0] += 1
                 t3 = True
               if (t1 and t2 and t3):
-                accumulatorW[p,f[0],k] += w1
-                accumulatorW[p,f[1],i] += w2
-                accumulatorW[p,f[2],j] += w3
+                accumulatorW[p,f[0],b2] += w1
+                accumulatorW[p,f[1],b0] += w2
+                accumulatorW[p,f[2],b1] += w3
 
-                accumulatorW[p,f[0], j] += w1
-                accumulatorW[p,f[1], k] += w2
-                accumulatorW[p,f[2], i] += w3
+                accumulatorW[p,f[0], b1] += w1
+                accumulatorW[p,f[1], b2] += w2
+                accumulatorW[p,f[2], b0] += w3
 
-                accumulator[p,f[0], k] += 1
-                accumulator[p,f[1], i] += 1
-                accumulator[p,f[2], j] += 1
+                accumulator[p,f[0], b2] += 1
+                accumulator[p,f[1], b0] += 1
+                accumulator[p,f[2], b1] += 1
 
-                accumulator[p,f[0], j] += 1
-                accumulator[p,f[1], k] += 1
-                accumulator[p,f[2], i] += 1
+                accumulator[p,f[0], b1] += 1
+                accumulator[p,f[1], b2] += 1
+                accumulator[p,f[2], b0] += 1
 
             # timing2 += ntime() - toc
 
-- 
2.43.0


From 5733089b5919723d9130db4bcf01e8c51b817ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 15/38] fix: scaling patterns to integers saturates instead of
 wrapping

---
 pyebsdindex/ebsd_pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c1a0891..6c1de25 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -168,6 +168,7 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     if maxScale is None:
       maxScale = temp.max()
     temp *= scalevalue * maxval / maxScale
+    temp = temp.clip(0, maxval)
     temp = np.around(temp)
     patsout[:,:,:] = temp.astype(typeout)
   return patsout # note, this function uses multiple returns.
-- 
2.43.0


From 4d58b76a4e9cf897046e3ec34a3cc12f885757b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 16/38] fix: writing a rectangle of patterns keeps their order
 and the caller's scaling

---
 pyebsdindex/ebsd_pattern.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 6c1de25..5ed0975 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -348,11 +348,6 @@ class EBSDPatternFile():
       elif ndim == 3:
         pats = newpatterns
       npats = pats.shape[0]
-    max = pats.max()
-
-    if maxScale is not None:
-      max = maxScale
-
     pStartEnd = np.asarray(patStartCount)
     # npats == number of patterns in the newpatterns
     # self.nPatterns == number of patterns in the file
@@ -368,7 +363,7 @@ class EBSDPatternFile():
         nPatToWrite = self.nPatterns - patStart
 
       typewrite = self.filedatatype
-      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=None)
+      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
       self.pat_writer(pat2write,patStart,nPatToWrite, typewrite)
 
     elif pStartEnd.ndim == 2: # write a slab of patterns.
@@ -383,17 +378,20 @@ class EBSDPatternFile():
         if nrowwrite < 0:
           nrowwrite = np.int64(self.nRows - rowstart)
 
+        ncolpats = ncolwrite # number of columns in newpatterns
         if (colstart+ncolwrite) > self.nCols:
           ncolwrite = np.int64(self.nCols - colstart)
 
         if (rowstart+nrowwrite) > self.nRows:
           nrowwrite = np.int64(self.nRows - rowstart)
 
-
+        # scale the slab as a whole, so that all the rows are scaled alike.
+        typewrite = self.filedatatype
+        pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
         for i in range(nrowwrite):
           pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)
-          self.write_data(newpatterns = pats[np.int64(i*ncolwrite):np.int64((i+1)*ncolwrite), :, :], patStartCount=[pstart,ncolwrite],writeHead=False,
-                          flt2int=flt2int,scalevalue=0.98, maxScale = max)
+          self.pat_writer(pat2write[np.int64(i*ncolpats):np.int64(i*ncolpats+ncolwrite), :, :], pstart, ncolwrite, typewrite)
+
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite):
     pass
 
-- 
2.43.0


From 08b5fa5095e423680d688e45004c7d8648f64392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 17/38] fix: UP files of version 1 are counted from where their
 patterns start

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 5ed0975..3f6c6ab 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -464,7 +464,7 @@ class UPFile(EBSDPatternFile):
       self.patternW = dat[0]
       self.patternH = dat[1]
       self.filePos = dat[2]
-      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - 16) /
+      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - np.int64(self.filePos)) /
                               (self.patternW * self.patternH * (self.filedatatype(0).nbytes)))
       if self.xStep is None:
         self.xStep = 0.0
-- 
2.43.0


From bbfbac153722286efce040eead1e435a53d1fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 18/38] fix: blank UP files put their patterns where the header
 says

---
 pyebsdindex/ebsd_pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 3f6c6ab..209ab88 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -588,6 +588,7 @@ class UPFile(EBSDPatternFile):
       # if self.bitdepth == 16:
       #   type = np.uint16
 
+      f.seek(self.filePos) # the patterns do not have to start directly behind the header
       blank = np.zeros((self.patternH, self.patternW), dtype=typewrite)
       for j in range(self.nRows):
         for i in range(self.nCols):
-- 
2.43.0


From 88f2ebef408a97c80978c8bad0b47f7ffa40e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 19/38] fix: EBSP files can be read with current numpy

---
 pyebsdindex/ebsd_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 209ab88..722671e 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -704,7 +704,7 @@ class EBSPFile(EBSDPatternFile):
       return -1
 
     f.seek(0)
-    version = np.fromfile(f, dtype=np.int64, count=1)
+    version = np.fromfile(f, dtype=np.int64, count=1)[0]
     version = np.int64(-1*version)
     if version <= 0:
       self.version = 0
@@ -734,7 +734,7 @@ class EBSPFile(EBSDPatternFile):
       loc0 = 0
       counter = 0
       while loc0 == 0: # check for non-stored points.
-        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1))
+        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1)[0])
         counter += 1
       f.seek(-8*counter, 1) # move back 8 bytes (or however far we needed to move into the file to find a legitamte offset.
 
-- 
2.43.0


From 5d19da5fddfa444a6f02fd4b48ea3385ec718e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 20/38] fix: blank EBSP files carry a valid version and row
 positions that read back

---
 pyebsdindex/ebsd_pattern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 722671e..de03016 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -967,8 +967,8 @@ class EBSPFile(EBSDPatternFile):
       self.version = 2
 
     if self.version > 0:
-      version = np.uint64(-self.version)
-      np.asarray(version, dtype=np.uint64).tofile(f)
+      version = np.int64(-self.version)
+      np.asarray(version, dtype=np.int64).tofile(f)
 
     if self.version >= 0:
       if self.filePos is None:
@@ -1016,7 +1016,8 @@ class EBSPFile(EBSDPatternFile):
             np.float64(i * self.xStep - 0.5*(self.nCols*self.xStep)).tofile(f)
             if self.version >= 2:
               np.uint8(1).tofile(f)
-            np.float64(j * self.yStep - 0.5*(self.nRows*self.yStep)).tofile(f)
+            # y decreases with the row number
+            np.float64(0.5*(self.nRows*self.yStep) - j * self.yStep).tofile(f)
           else: # no xy_pos info
             if self.version >= 2:
               np.uint8(0).tofile(f)
-- 
2.43.0


From fb5c43eb360c1a01ed86fe90fc89e334fb07ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 21/38] fix: writing EBSP patterns leaves the stored positions
 alone

---
 pyebsdindex/ebsd_pattern.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index de03016..1acf8a3 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1036,26 +1036,13 @@ class EBSPFile(EBSDPatternFile):
     pathead = np.array([0, np.int64(self.patternH), np.int64(self.patternW),
                         np.int64(self.patternH * self.patternW * self.filedatatype(0).nbytes)], dtype=np.uint32)
 
-    write_xypos = self.hasxypos
-
     for i in range(np.int64(patStart), np.int64(patStart + nPatToWrite)):
       if np.int64(self.filePos[i]) > 0:
         f.seek(np.int64(self.filePos[i]), 0)
         ii = np.int64(i - patStart)
         pathead.tofile(f)
         pat2write[ii, :, :].tofile(f)
-        if write_xypos:
-          if self.version >= 2:
-            np.uint8(1).tofile(f)
-          yx = np.array(np.unravel_index(i, (self.nRows, self.nCols))).astype(np.float64)
-          yx[1] -= float(self.nCols * 0.5)
-          yx[1] *= self.xStep
-          yx[0] -= float(self.nRows * 0.5)
-          yx[0] *= self.yStep
-          np.float64(yx[1]).tofile(f)
-          if self.version >= 2:
-            np.uint8(1).tofile(f)
-          np.float64(yx[0]).tofile(f)
+        # the position stored behind the pattern is left as it is.
     f.close()
 
 class TFPatFile(EBSDPatternFile):
-- 
2.43.0


From c59bdb66a89f21b260bb0f83f11c93965a3f67be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 22/38] fix: new TFPAT files are complete and carry their
 background

---
 pyebsdindex/ebsd_pattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 1acf8a3..6a56d6e 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1244,7 +1244,7 @@ class TFPatFile(EBSDPatternFile):
       else: # there should be a background to write.
         np.asarray(-1, dtype=np.int16).tofile(f)
         background = np.zeros((self.patternH, self.patternW), dtype=np.uint16)
-        if self.background != np.ndarray:
+        if not isinstance(self.background, np.ndarray):
           pass
         else:
           if self.background.size != np.int64(self.patternH * self.patternW):
@@ -1258,7 +1258,7 @@ class TFPatFile(EBSDPatternFile):
       typewrite = self.filedatatype
       dtyperead = np.dtype([('loc', np.uint32, (2)), ('pat', np.uint16, (self.patternH, self.patternW))])
 
-      f.seek(np.uint64(self.nPatterns * dtyperead.itemsize -1))
+      f.seek(np.int64(self.filePos + self.nPatterns * dtyperead.itemsize -1))
       np.asarray(0, dtype=np.uint8).tofile(f)
 
 
@@ -1340,6 +1340,10 @@ class TFPatFile(EBSDPatternFile):
             dstf.seek(size-1,0)
             #print('seek done')
             dstf.write(b"\0")
+        else:
+          shutil.copyfile(src,dst)
+      else:
+        shutil.copyfile(src,dst)
     except:
       shutil.copyfile(src,dst)
 
-- 
2.43.0


From a94a8f57147bab390f806355dd078ff25da9996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 23/38] fix: Oxford HDF5 files without processed patterns fall
 back to the raw ones

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 6a56d6e..74e2218 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1751,7 +1751,7 @@ class OXFORDOINA(HDF5PatFile):
     f.close()
 
     if (len(self.h5datagroups) < 1) and (getraw is False):
-      self.get_data_paths(self, verbose=False, getraw=True)
+      self.get_data_paths(verbose=0, getraw=True)
 
     if len(self.h5datagroups) < 1:
       print("No viable EBSD patterns found:",str(Path(self.filepath)))
-- 
2.43.0


From c50483847134e42d6f01e2402920f4e877a02fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 24/38] fix: a phase with a single pole family can be voted for

---
 pyebsdindex/tripletvote.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index ecd39ee..467200f 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -1145,7 +1145,8 @@ class BandIndexer():
           band_cm[p,q] = 0.0
         else:
           srt = np.argsort(accumulatorW[p,:,q])
-          band_cm[p,q] = (accumulatorW[p,srt[-1],q] - accumulatorW[p,srt[-2],q]) / (tvotes[p,q])
+          second = accumulatorW[p,srt[-2],q] if nfam > 1 else np.float32(0.0)
+          band_cm[p,q] = (accumulatorW[p,srt[-1],q] - second) / (tvotes[p,q])
       #for q in range(n_bands):
         bandFam[p,q] = np.argmax(accumulatorW[p,:,q])
       bandRank[p,:] = (n_bands - np.arange(n_bands)) / n_bands * band_cm[p,:] * mxvote[p,:]
-- 
2.43.0


From c1443b745fda18ef48b8f1aa23d72330c0cb170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 25/38] fix: maps of a single point can be exported

---
 pyebsdindex/ebsdfile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index aba7f9f..f6619f2 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -76,7 +76,7 @@ def writeang(filename, indexer, data,
       phaseIDadd = 0
     else:
       phaseIDadd = 1
-    eulers = rotlib.qu2eu(data[-1]['quat'])
+    eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat']))
     for i in range(data.shape[-1]):
       line = '  '
       line += '   '.join('{:.5f}'.format(x) for x in eulers[i,:])
@@ -237,10 +237,10 @@ def writeoh5(filename, indexer, data,
       # Write data
       npoints = data[-1].shape[-1]
 
-      eulers = rotlib.qu2eu(data[-1]['quat'])
-      phi1 = np.squeeze(eulers[:,0]).astype(np.float32)
-      phi = np.squeeze(eulers[:, 1]).astype(np.float32)
-      phi2 = np.squeeze(eulers[:, 2]).astype(np.float32)
+      eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat']))
+      phi1 = eulers[:,0].astype(np.float32)
+      phi = eulers[:, 1].astype(np.float32)
+      phi2 = eulers[:, 2].astype(np.float32)
 
       f.create_dataset(datasetname + '/EBSD/Data/Phi1',
                        data=phi1)
-- 
2.43.0


From af31b1f95c2f9e51dbdc9d8eb4eff5f63367346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 26/38] fix: HDF5 maps mark unindexed points and leave the
 results alone

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index f6619f2..7c0e05f 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -259,8 +259,8 @@ def writeoh5(filename, indexer, data,
 
 
       phaseid = data[-1]['phase']+ phaseIDadd
-      ci = data[-1]['cm']
-      wh = np.nonzero(phaseid < 0)[0]
+      ci = data[-1]['cm'].copy()
+      wh = np.nonzero(data[-1]['phase'] < 0)[0]
       if wh.shape[-1] > 0:
         ci[wh] = -1.0
       phaseid = (phaseid).clip(0)
-- 
2.43.0


From f5d6ff15b5a56bbe25062ae6f6e15ab981b9fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 27/38] fix: HDF5 maps can be written with only the number of
 columns given

---
 pyebsdindex/ebsdfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 7c0e05f..8bdde50 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -221,9 +221,9 @@ def writeoh5(filename, indexer, data,
             if indexer.fID.nCols is not None:
               ncols = indexer.fID.nCols
               nrows = indexer.fID.nRows
-        else:
-          if nrows is None:
-            nrows = np.ceil(data.shape[-1] / ncols)
+      else:
+        if nrows is None:
+          nrows = np.ceil(data.shape[-1] / ncols)
 
       ncols = np.atleast_1d(np.array([np.int32(ncols)]).squeeze())
       nrows = np.atleast_1d(np.array([np.int32(nrows)]).squeeze())
-- 
2.43.0


From 062287e8658a852dbab176c670979278729ad6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 28/38] fix: distributed indexing of the last patterns, or of
 more than there are

---
 pyebsdindex/_ebsd_index_parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index c0d0c89..0cb1396 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -275,9 +275,10 @@ def index_pats_distributed(
         )
 
     if patstart < 0:
-        patstart = npatsTotal - patstart
+        patstart = npatsTotal + patstart
     if npats <= 0:
         npats = npatsTotal - patstart
+    npats = min(npats, npatsTotal - patstart)
 
     # Now set up the cluster with the indexer
 
-- 
2.43.0


From f40fa6bf312936df1da97621d125581014d1c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 29/38] fix: the job of a stuck band finding worker is done
 once

---
 pyebsdindex/_ebsd_index_parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 0cb1396..82066b4 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -618,6 +618,7 @@ def index_pats_distributed(
                             actorid=0, clparammodule=clparamfunction, gpu_id=gpu_id, cudavis=cudagpuvis
                         )
                     )
+                    gjob = gpujobs.pop(0)
                     if inputmode == "filemode":
                         gputask.append(
                             gpuworkers[0].findbands.remote(gjob,
-- 
2.43.0


From a86f743cb0ffd9013f94ec5eaaf0edc605f36d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 30/38] fix: QUEST refinement without weights, and with the
 caller's weights left alone

---
 pyebsdindex/tripletvote.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 467200f..23d7f4f 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -886,7 +886,7 @@ class BandIndexer():
                                 polesmatch, polesvalid,  weights = None):
     tic = timer()
     npats = bandnorms.shape[0]
-    nbands = bandnorms.shape[-1]
+    nbands = bandnorms.shape[-2]
 
 
     if weights is None:
@@ -894,7 +894,7 @@ class BandIndexer():
       weights *= (polesvalid > 0).astype(np.float32)
 
     weightsn = np.asarray(weights, dtype=np.float64)
-    weightsn /= np.maximum(np.sum(weightsn, axis=1), 1e-12).reshape(-1, 1)
+    weightsn = weightsn / np.maximum(np.sum(weightsn, axis=1), 1e-12).reshape(-1, 1)
     #print(weightsn)
     pflt = np.asarray(libpolecart[polesmatch.clip(0), :], dtype=np.float64) # using clip 0 here --> weights SHOULD be 0.0 for all unmatched
     bndnorm = np.asarray(bandnorms, dtype=np.float64)
-- 
2.43.0


From ed61c3bd1f2c9d57c91537a6ea883e509b80a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 31/38] fix: QUEST refinement of half turns

---
 pyebsdindex/tripletvote.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 23d7f4f..852fe51 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -978,6 +978,31 @@ class BandIndexer():
       qn = np.sqrt(qn)
       q[0] = gamma
       q[1:4] = X[0:3]
+      if qn < 1.0e-8:
+        # (gamma, X) is proportional to the scalar part, so it vanishes for half turns.
+        # Take the largest column of the adjugate of K - lam, which is proportional to q as well.
+        K = np.zeros((4, 4), dtype=np.float64)
+        K[0, 0] = sig - lam
+        for i in range(3):
+          K[0, i + 1] = z[i]
+          K[i + 1, 0] = z[i]
+          for j in range(3):
+            K[i + 1, j + 1] = S[i, j]
+          K[i + 1, i + 1] -= sig + lam
+        dmx = 0.0
+        for c0 in range(4):
+          adj = np.zeros((4), dtype=np.float64)
+          for r0 in range(4):
+            M = np.zeros((3, 3), dtype=np.float64)
+            for i in range(3):
+              for j in range(3):
+                M[i, j] = K[i + int(i >= r0), j + int(j >= c0)]
+            adj[r0] = np.linalg.det(M) * (1.0 - 2.0 * ((r0 + c0) % 2))
+          if np.fabs(adj[c0]) > dmx:
+            dmx = np.fabs(adj[c0])
+            q[:] = adj
+        gamma = q[0]
+        qn = np.sqrt(np.sum(q ** 2))
       q /= qn
       if (np.sign(gamma) < 0):
         q *= -1.0
-- 
2.43.0


From 7e0de64f3ec414a75c696c1c8641beb585ef8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 32/38] fix: the swarm optimiser can be run for a single
 iteration

---
 pyebsdindex/pcopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 05cb5f0..d1d5cae 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -531,7 +531,7 @@ class PSOOpt():
         # Function that selects and implements evolution of hyperparameters.
         if str.lower(self.hyperparammethod) == 'auto':
 
-            N = float(self.niter)-1
+            N = max(float(self.niter)-1, 1.0)
             self.c1i = (self.c1 - self.c1 / 7) * (N-iter)/N + self.c1 / 7.0
             #self.c2i = (self.c1 - self.c1 / 7) * (iter) / N + self.c1 / 7.0
             self.c2i = (self.c2 - self.c2 / 7) * (iter) / N + self.c2 / 7.0
-- 
2.43.0


From 53fd5fc8011d33ce1a26d65551e8ab2c34b9a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 33/38] fix: optimising the pattern centre leaves the indexer
 and the starting guess alone

---
 pyebsdindex/pcopt.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index d1d5cae..b3c7c40 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -38,8 +38,10 @@ RADEG = 180.0 / np.pi
 
 
 #def _optfunction(PC_i, indexer, banddat):
-def _optfunction(PC_i, indexer=None, banddat=None):
+def _optfunction(PC_i, indexer=None, banddat=None, vendor=None):
     tic = timer()
+    if vendor is None:
+        vendor = indexer.vendor
     PC = np.atleast_2d(PC_i)
     result = np.zeros(PC.shape[0])
     # this loop is here because pyswarms expects a vectorized function
@@ -47,7 +49,7 @@ def _optfunction(PC_i, indexer=None, banddat=None):
     for q in range(PC.shape[0]):
 
         bandnorm = indexer.bandDetectPlan.radonPlan.radon2pole(
-            banddat, PC=PC[q,:], vendor=indexer.vendor
+            banddat, PC=PC[q,:], vendor=vendor
         )
         #print(timer() - tic)
         npoints = banddat.shape[0]
@@ -122,12 +124,13 @@ def optimize(pats, indexer, PC0=None, batch=False):
     if PC0 is None:
         PC0 = indexer.PC
     emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
+    vendor = indexer.vendor
+    if vendor == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
-        indexer.vendor = "EDAX"
+        vendor = "EDAX"
         patDim = np.array(indexer.bandDetectPlan.patDim)
         delta = indexer.PC
-        PCtemp = PC0[0:3]
+        PCtemp = np.array(PC0[0:3], dtype=np.float64)
         patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
@@ -141,7 +144,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         PCopt = opt.minimize(
             _optfunction,
             PC0,
-            args=(indexer, banddat),
+            args=(indexer, banddat, vendor),
             method="Nelder-Mead",
             options={"fatol": 0.00001}
         )
@@ -152,14 +155,12 @@ def optimize(pats, indexer, PC0=None, batch=False):
             PCopt = opt.minimize(
                 _optfunction,
                 PC0,
-                args=(indexer, banddat[i, :].reshape(1, nbands)),
+                args=(indexer, banddat[i, :].reshape(1, nbands), vendor),
                 method="Nelder-Mead"
             )
             PCoutRet[i, :] = PCopt['x']
 
-    if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
-        indexer.PC = delta
+    if emsoftflag:  # Return the PC in the EMSOFT convention
         patDim = np.array(indexer.bandDetectPlan.patDim)
         patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
         if PCoutRet.ndim == 2:
@@ -266,11 +267,12 @@ def optimize_pso(
         PC0 = np.asarray(PC0)
 
     emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
+    vendor = indexer.vendor
+    if vendor == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
-        indexer.vendor = "EDAX"
+        vendor = "EDAX"
         delta = indexer.PC
-        PCtemp = PC0[0:3]
+        PCtemp = np.array(PC0[0:3], dtype=np.float64)
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
@@ -295,7 +297,7 @@ def optimize_pso(
         # cost, PCoutRet = optimizer.optimize(
         #     _optfunction, niter, indexer=indexer, banddat=banddat
         # )
-        cost, PCoutRet = optimizer.optimize(_optfunction, indexer=indexer, banddat=banddat,
+        cost, PCoutRet = optimizer.optimize(_optfunction, indexer=indexer, banddat=banddat, vendor=vendor,
                                             start=PC0, bounds=(PC0 - np.array(search_limit), PC0 + np.array(search_limit)),
                                             niter=niter, verbose=verbose)
         #weightedPC = np.mean(optimizer.pbest_loc, axis = 0)
@@ -314,7 +316,7 @@ def optimize_pso(
 
 
             cost, newPC = optimizer.optimize(_optfunction, indexer=indexer,
-                                    banddat=banddat[i, :].reshape(1, nbands),
+                                    banddat=banddat[i, :].reshape(1, nbands), vendor=vendor,
                start=PC0, bounds=(PC0 - np.array(search_limit), PC0 + np.array(search_limit)),
                niter=niter, verbose=0)
 
@@ -331,9 +333,7 @@ def optimize_pso(
         if verbose >= 1:
             print('', end='\n')
 
-    if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
-        indexer.PC = delta
+    if emsoftflag:  # Return the PC in the EMSOFT convention
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
             PCoutRet[:, 0] -= 0.5
-- 
2.43.0


From 5928fa2a53cf63dafcdd6411556db59bddb729fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 34/38] fix: pattern centre optimisation converts EMsoft
 centres the way indexing does

---
 pyebsdindex/pcopt.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index b3c7c40..682f9be 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -131,7 +131,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         patDim = np.array(indexer.bandDetectPlan.patDim)
         delta = indexer.PC
         PCtemp = np.array(PC0[0:3], dtype=np.float64)
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
@@ -162,7 +162,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
 
     if emsoftflag:  # Return the PC in the EMSOFT convention
         patDim = np.array(indexer.bandDetectPlan.patDim)
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
             PCoutRet[:, 0] -= 0.5
@@ -276,7 +276,9 @@ def optimize_pso(
         PCtemp[0] *= -1.0
         PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
         PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        PCtemp /= indexer.bandDetectPlan.patDim[1]
+        patDim = np.array(indexer.bandDetectPlan.patDim)
+        patdimnorm = (np.array([patDim[1], patDim[0], np.min(patDim[0:2])]))
+        PCtemp /= patdimnorm
         PCtemp[2] /= delta[3]
         PC0 = np.array(PCtemp)
 
@@ -337,7 +339,7 @@ def optimize_pso(
         if PCoutRet.ndim == 2:
             newout = np.zeros((npoints, 4))
             PCoutRet[:, 0] -= 0.5
-            PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
+            PCoutRet[:, :3] *= np.atleast_2d(patdimnorm)
             PCoutRet[:, 1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
             PCoutRet[:, 0] *= -1.0
             PCoutRet[:, 2] *= delta[3]
@@ -347,7 +349,7 @@ def optimize_pso(
         else:
             newout = np.zeros(4)
             PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
+            PCoutRet[:3] *= patdimnorm
             PCoutRet[1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
             PCoutRet[0] *= -1.0
             PCoutRet[2] *= delta[3]
-- 
2.43.0


From 56ab28e152cd82c7f5494199e45438091ad0480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 35/38] fix: radon_fast accepts a background with a single
 image

---
 pyebsdindex/radon_fast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/radon_fast.py b/pyebsdindex/radon_fast.py
index 300d4fc..3bd35bf 100644
--- a/pyebsdindex/radon_fast.py
+++ b/pyebsdindex/radon_fast.py
@@ -204,9 +204,9 @@ class Radon:
       #image = image.reshape(-1)
     else:
       if str.upper(background_method) == 'DIVIDE':
-        image = imageIn / background
+        image = image / background
       else:
-        image = imageIn - background
+        image = image - background
       #image = image.reshape(-1)
 
     nPx = shapeIm[-1]*shapeIm[-2]
-- 
2.43.0


From fb84fadd6eda89ad2503fd94c6c99ea0b96e3255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 36/38] fix: radon_fast marks empty lines with the plan's
 missing value

---
 pyebsdindex/radon_fast.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/radon_fast.py b/pyebsdindex/radon_fast.py
index 3bd35bf..31b7941 100644
--- a/pyebsdindex/radon_fast.py
+++ b/pyebsdindex/radon_fast.py
@@ -217,9 +217,8 @@ class Radon:
     norm = np.sum(self.indexPlan < nPx, axis = 2 ) + 1.0e-12
     for i in np.arange(nIm):
       im[:-2] = (image[i,:,:].flatten()).astype(np.float32)
-      radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] = (
-          np.sum(im.take(self.indexPlan.astype(np.int64)), axis=2) / norm)
-      radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] += -1.0*(norm < 1.0).astype(float)
+      radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] = np.where(
+          norm < 1.0, self.missingval, np.sum(im.take(self.indexPlan.astype(np.int64)), axis=2) / norm)
 
     if (fixArtifacts == True):
       radon[:,:,0] = radon[:,:,1]
-- 
2.43.0


From 45747c9bee4df7eb05c68b9aa4cfb2b6fa57fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 37/38] fix: radon_fast corrects the first and last angle, not
 the padding

---
 pyebsdindex/radon_fast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/radon_fast.py b/pyebsdindex/radon_fast.py
index 31b7941..8fbc85a 100644
--- a/pyebsdindex/radon_fast.py
+++ b/pyebsdindex/radon_fast.py
@@ -221,8 +221,8 @@ class Radon:
           norm < 1.0, self.missingval, np.sum(im.take(self.indexPlan.astype(np.int64)), axis=2) / norm)
 
     if (fixArtifacts == True):
-      radon[:,:,0] = radon[:,:,1]
-      radon[:,:,-1] = radon[:,:,-2]
+      radon[:,:,padding[1]] = radon[:,:,padding[1]+1]
+      radon[:,:,shpRdn[2]-1-padding[1]] = radon[:,:,shpRdn[2]-padding[1]-2]
 
     radon = np.transpose(radon, [1,2,0]).copy()
 
-- 
2.43.0


From 82399be24dbb31ea36a8273bbb31ed2d0a9cc4ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 38/38] fix: makeipf draws a scan of a single point

---
 pyebsdindex/EBSDImage/IPFcolor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index e1ade33..12f21bd 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -53,7 +53,7 @@ def makeipf(ebsddata, indexer, vector=np.array([0,0,1.0]), xsize = None, ysize =
       ipfphase[phcount, :, :] = qu2ipf_hex(quat, vector=vector)
     phcount += 1
   phase = ((ebsddata[-1]['phase']).copy()).clip(0).reshape(npoints,1)
-  ipfout = np.choose(phase, ipfphase).squeeze()
+  ipfout = np.choose(phase, ipfphase)
   ipfout[ebsddata[-1]['fit'] > 179,:] = 0
 
 
-- 
2.43.0

