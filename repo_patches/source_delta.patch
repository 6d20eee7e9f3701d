From 60b3602590ae85dcba0189da75ae3f43c1eef72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 01/47] fix: hour() crashed whenever no area was short of
 capacity

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index c001c67..d22c60b 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -138,7 +138,6 @@ def hour(
         FLAG = 0
         MARGIN = (SYSCON[:NOAREA] - CAPREQ[:NOAREA]).astype(int)
         FLAG += sum(MARGIN < 0)
-        IT = np.where(MARGIN < 0)[0][-1]
 
         if FLAG == 0:
             # print('Returning: No Loss')
@@ -156,6 +155,7 @@ def hour(
             if FLAG > 1:
                 pass  # as the original Fortran logic
             else:
+                IT = np.where(MARGIN < 0)[0][-1]
                 NEED = abs(MARGIN[IT])
                 for j in np.where(MARGIN > 0)[0]:
                     N = LINENO[j, IT]
-- 
2.43.0


From 7e46977854ef7911c9ffa97dbd664b6323aa734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 02/47] fix: net() gave the first area's LP injection the wrong
 sign

---
 reliabilityassessment/monte_carlo/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/net.py b/reliabilityassessment/monte_carlo/net.py
index 298b0cf..b80531e 100644
--- a/reliabilityassessment/monte_carlo/net.py
+++ b/reliabilityassessment/monte_carlo/net.py
@@ -36,7 +36,7 @@ def _net(B, B1, RES, IBAS, BS, M, N):
 
     for i in range(M):
         k = IBAS[i]
-        if k > NX1:
+        if k >= NX1:
             RES[k, 0] = -BS[i]
             continue
         RES[k, 0] = BS[i]
@@ -80,7 +80,7 @@ def net(B, B1, RES, IBAS, BS, M, N):
     RES[:N, :3] = 0
 
     RES[IBAS[:M], 0] = BS[:M]
-    RES[IBAS[:M][IBAS[:M] > N - M], 0] *= -1
+    RES[IBAS[:M][IBAS[:M] >= N - M], 0] *= -1
 
     RES[N - M : N, 1][B1[:M] < 0] = 1
     RES[N - M : N, 0] += B[:M]
-- 
2.43.0


From 20b45446c544c7031ee7bc2e196a21026f5d02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 03/47] fix: tm2() could not call conls() for load-sharing
 curtailments

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index f76c144..244f9c0 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -234,7 +234,7 @@ def tm2(
                 )
     else:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
-            BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
+            BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
         # NXT = NX + 1 defined but not used in original Fortran
-- 
2.43.0


From 4ef84a059de99d3f5c76d9c93ec0bdef569c127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 04/47] fix: tm2() did not update the network matrices for
 outages of lines at the reference area

---
 reliabilityassessment/monte_carlo/tm2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 244f9c0..3b18279 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -97,13 +97,12 @@ def tm2(
         NII = IEQ[NI]
         BIJ = BLP[i, 0]
 
-        if BIJ == 0.0:
-            continue
-
         for bij in [BIJ, -BLP0[i]]:
+            if bij == 0.0:
+                continue
             ZIJ = -1 / bij
             Z = ximpar(ZB, ZIJ, NII)
-            admref(BB, NII, BIJ)
+            admref(BB, NII, bij)
             ZB[:NX, :NX] = Z[:NX, :NX].copy()
 
     # Assigns injections at buses so as to balance
-- 
2.43.0


From 2a501deabed50d002aa202cc0430d13ed9a8cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 05/47] fix: tm2() overwrote the impedance matrix with the
 admittance matrix after an LP

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 3b18279..46f21da 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -301,6 +301,6 @@ def tm2(
 
     # GO TO 1000
     BB[:NX, :NX] = BT[:NX, :NX].copy()
-    ZB[:NX, :NX] = BT[:NX, :NX].copy()
+    ZB[:NX, :NX] = ZT[:NX, :NX].copy()
 
     return FLOW, INDIC
-- 
2.43.0


From e8adadb77a8591d3e9538484b2f3818af07e46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 06/47] fix: tm2() crashed writing the transmission trace when
 units were on outage

---
 reliabilityassessment/monte_carlo/tm2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 46f21da..ae825b8 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -190,18 +190,18 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
-            for i in range[JXX]:
+            for i in range(JXX):
                 f.write("%4d\n " % (NNTAB[i]))
 
             if JFLAG != 1:
@@ -265,15 +265,15 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
             for i in range(JXX):
-- 
2.43.0


From b2e56bb572a662305cee64d914c6889d874faaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 07/47] fix: tm2() ignored line outages that split the network

---
 reliabilityassessment/monte_carlo/tm2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index ae825b8..7e92110 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -105,6 +105,11 @@ def tm2(
             admref(BB, NII, bij)
             ZB[:NX, :NX] = Z[:NX, :NX].copy()
 
+    # line outages may split the network: ZB does not exist then, and only the LP
+    # can tell which injections the islands can exchange
+    TOL = 1e-9 * np.abs(BLP0).max()
+    SPLIT = np.linalg.matrix_rank(BB[:NX, :NX], tol=TOL) < NX
+
     # Assigns injections at buses so as to balance
     # positive and negative injections
     INJ1, LODC = assign(INJ, LOD, LT, NN, NLS)
@@ -113,7 +118,7 @@ def tm2(
     THETC = thetac(THET, LT)
     SFLOW, FLOW = flo(LP, BLP, THETC)
 
-    INDIC = 0
+    INDIC = int(SPLIT)
 
     for i in range(NL):
         if FLOW[i] >= 0:
-- 
2.43.0


From 63eeef853688261a029bc3b9ec59401ce8d4866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 08/47] fix: transm() charged first-pass flows to the wrong
 side of the area limits

---
 reliabilityassessment/monte_carlo/transm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index de0446c..73a26bb 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -112,10 +112,11 @@ def transm(
         BLP[:NL, 1] -= FLOW[:NL]
         BLP[:NL, 2] += FLOW[:NL]
         BLP[:NL, [1, 2]] = BLP[:NL, [1, 2]].clip(min=0.0)
-        BN[LP[:NL, 1], 3] += FLOW[:NL]
-        BN[LP[:NL, 1], 4] -= FLOW[:NL]
-        BN[LP[:NL, 2], 3] += FLOW[:NL]
-        BN[LP[:NL, 2], 4] -= FLOW[:NL]
+        # BN[:, 3] limits the imports of an area, BN[:, 4] its exports
+        np.add.at(BN[:, 3], LP[:NL, 1], FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 1], -FLOW[:NL])
+        np.add.at(BN[:, 3], LP[:NL, 2], -FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 2], FLOW[:NL])
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From 368b2f6df62837d10ca989002d2ea2f5bc55307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 09/47] fix: linp() let artificial variables grow in its second
 phase

---
 reliabilityassessment/monte_carlo/linp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/linp.py b/reliabilityassessment/monte_carlo/linp.py
index dc0e9b9..7c346e9 100644
--- a/reliabilityassessment/monte_carlo/linp.py
+++ b/reliabilityassessment/monte_carlo/linp.py
@@ -137,6 +137,8 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
             # N -= NXT # this comment exists in the original Fortran code.
             XOB[:N] = XOBI[1, :N].copy()
             CB[:M] = XOB[IBAS[:M]]
+            # artificial variables still in the basis have to stay zero
+            CB[IBAS[:M] >= N] = 1e4
             IPH = 2
         # GO TO 110 while loop
 
-- 
2.43.0


From 45377ff4eacfcc4e66abe235bb810dc4aa084547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 10/47] fix: transm() passed area limits below zero by
 round-off to the LP

---
 reliabilityassessment/monte_carlo/transm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index 73a26bb..f7cd579 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -117,6 +117,7 @@ def transm(
         np.add.at(BN[:, 4], LP[:NL, 1], -FLOW[:NL])
         np.add.at(BN[:, 3], LP[:NL, 2], -FLOW[:NL])
         np.add.at(BN[:, 4], LP[:NL, 2], FLOW[:NL])
+        BN[:NN, [3, 4]] = BN[:NN, [3, 4]].clip(min=0.0)
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From 0a2c8f37f190bb8c40ea4de3c40e82679c6f0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 11/47] fix: xldnew() mixed up the load profiles of areas with
 two-digit numbers

---
 reliabilityassessment/data_processing/xldnew.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/xldnew.py b/reliabilityassessment/data_processing/xldnew.py
index 9d4f510..a0d8ff4 100644
--- a/reliabilityassessment/data_processing/xldnew.py
+++ b/reliabilityassessment/data_processing/xldnew.py
@@ -27,7 +27,7 @@ def xldnew(FileNameAndPath, PKLOAD):
 
     for line in Lines:
         if line[:4] == "AREA":
-            areaIdx = int(line[6]) - 1
+            areaIdx = int(line[6:]) - 1
             hourIdx = 0
         else:
             HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(
-- 
2.43.0


From 019d47566b3f6dc9a9f42cfa64a57296e800eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 12/47] fix: resca() used first-season ratings for peaks in the
 fourth season

---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 02b6437..aa6a8ab 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.argmax(QTR > IDAY * 24)
+        IPER = np.sum(QTR < IDAY * 24)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From 60e616ff66f1c23f4ced79f0ba3ed72e4df5f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 13/47] fix: smaint() never planned an outage for the last week
 of the year

---
 reliabilityassessment/data_processing/smaint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index de2f88b..611cf17 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -89,8 +89,8 @@ def smaint(
         for wi in {3, 5}:
             if ID[i, wi] != -1:
                 j1 = ID[i, wi]
-                # the index of last week of a simulation year is 51
-                j2 = min(51, j1 + ID[i, wi + 1])
+                # the index of last week of a simulation year is 51 (j2 is exclusive)
+                j2 = min(52, j1 + ID[i, wi + 1])
                 # increase total number of units under maintenance for the weeks
                 JPLOUT[j1:j2, 0] += 1
                 JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
-- 
2.43.0


From f49f9b1b605edcb7c4c618054121b49ae835811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 14/47] fix: datax() crashed on firm contracts and shifted them
 by a day

---
 reliabilityassessment/data_processing/datax.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index cb83588..a3c8dc3 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -118,16 +118,19 @@ def datax(inputB_dict):
     # INTCHR: recording the from and to area no. for each contract
     INTCHR = np.zeros((MAX_CONTRACTS, 2))
     if inputB_dict["ZZFC"] and len(inputB_dict["ZZFC"]["SNRI"]) > 0:
-        for i, (src, dst) in enumerate(
-            dict.fromkeys(zip(inputB_dict["ZZFC"]["NAR"]), inputB_dict["ZZFC"]["NAE"])
+        for k, (src, dst) in enumerate(
+            zip(inputB_dict["ZZFC"]["NAR"], inputB_dict["ZZFC"]["NAE"])
         ):
-            JENT[src, dst] = i
+            if JENT[src, dst] == -1:
+                JENT[src, dst] = JENT.max() + 1
+            i = JENT[src, dst]
             INTCHR[i, :] = src, dst
+            # days are numbered from 1 on the data card
             beg_day, end_day = (
-                inputB_dict["ZZFC"]["BEG DAY"][i],
-                inputB_dict["ZZFC"]["END DAY"][i],
+                inputB_dict["ZZFC"]["BEG DAY"][k] - 1,
+                inputB_dict["ZZFC"]["END DAY"][k],
             )
-            INTCH[i, beg_day : end_day + 1] = inputB_dict["ZZFC"]["MW"][i]
+            INTCH[i, beg_day:end_day] += inputB_dict["ZZFC"]["MW"][k]
 
     # --------------------------------------------------------------
     # Read ownership of units and create appropriate arrays.
-- 
2.43.0


From a02ea85829d7167eca3ac64b7909b6e75c8a03be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 15/47] fix: read_card_ZZOD() did not parse the ownership
 shares

---
 reliabilityassessment/data_processing/readInputB.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index f7ef13a..6dcfa8b 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -473,7 +473,12 @@ def read_card_ZZOD(filepath):
     """
     Percentage ownership by each area
     """
-    data["PERCENT"] = df_ZZOD["PERCENT OWNED BY AREA"].to_numpy()
+    data["PERCENT"] = np.array(
+        [
+            list(map(float, str(row).strip().split(",")))
+            for row in df_ZZOD["PERCENT OWNED BY AREA"]
+        ]
+    )
 
     return data
 
-- 
2.43.0


From 1a5a28ecb68bc358076151777a36a58c703eeaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 16/47] fix: hour() treated the last hour of each year as hour
 -1

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index d22c60b..0fb9617 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -87,7 +87,7 @@ def hour(
 
     # ..............UPDATE HOUR NUMBER.............
     DXX = 8760
-    JHOUR = -1 + int(CLOCK % DXX)  # DMOD(CLOCK,DXX) in original Fortran
+    JHOUR = int(CLOCK - 1) % DXX  # DMOD(CLOCK,DXX) in original Fortran
     # need to minus 1 due to 0-based index in Python!
 
     # need to double check
-- 
2.43.0


From e94e84a41c4231b3aa9fd72f87b8362cf38b486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 17/47] fix: hour() crashed with daily draws and never drew
 with daily statistics

---
 reliabilityassessment/monte_carlo/hour.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 0fb9617..b6266e7 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -10,6 +10,9 @@ from reliabilityassessment.monte_carlo.pkstat import pkstat
 from reliabilityassessment.monte_carlo.sumcap import sumcap
 from reliabilityassessment.monte_carlo.transm import transm
 
+# the latest draw, in force until the next one (once per day if JFREQ is 24)
+DRAW = []
+
 
 def hour(
     ATRIB,
@@ -101,11 +104,14 @@ def hour(
 
     # ......Draw generator states and sum capacities by area...............
     NOAREA = CAPOWN.shape[0]
-    if JHOUR % JFREQ == 0 or JFREQ == 1:
+    if JHOUR % JFREQ == 0 or JSTEP == 24:
         PCTAVL, AVAIL = gstate(IGSEED, PROBG, RATING, DERATE, PLNDST)
         CAPAVL, SYSOWN, SYSCON, TRNSFJ = sumcap(AVAIL, CAPOWN, CAPCON)
         LNSTAT = lstate(ILSEED, PROBL)
         TRNSFR = findtn(JENT, INTCH, JDAY)
+        DRAW[:] = PCTAVL, AVAIL, SYSCON, TRNSFJ, LNSTAT, TRNSFR
+    else:
+        PCTAVL, AVAIL, SYSCON, TRNSFJ, LNSTAT, TRNSFR = DRAW
 
     # STMULT(I,1) IS FORWARD DIRECTION ADJUSTMENT
     # STMULT(I,2) IS BACKWARD DIRECTION ADJUSTMENT
-- 
2.43.0


From 9b52bb557a2b3e097dd6cd1bf0e4878381d439c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 18/47] fix: week() put planned outages into force a week late
 and drifted a day per year

---
 reliabilityassessment/monte_carlo/week.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/week.py b/reliabilityassessment/monte_carlo/week.py
index 2625ab9..01ad72d 100644
--- a/reliabilityassessment/monte_carlo/week.py
+++ b/reliabilityassessment/monte_carlo/week.py
@@ -29,16 +29,19 @@ def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
     .. note:: ATRIB, PLNDST, EVNTS are modified in place.
     """
 
+    # index of the week that begins after the latest simulated hour
+    # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
+    JWEEK = 0 if JHOUR == 8759 else (JHOUR + 1) // 168
+
     # assigning the event attribute by shifting the clock for a week
-    ATRIB[0] = CLOCK + 168
+    # (or for the last day of a year, which follows 52 full weeks)
+    ATRIB[0] = CLOCK + (24 if JWEEK > 51 else 168)
 
     # place new entry into the event list
     NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
 
     PLNDST[:] = 1.0
 
-    # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
-    JWEEK = JHOUR // 168
     if JWEEK > 51:
         return IPOINT, MFA, NUMINQ
 
-- 
2.43.0


From 2506eba6f44f2f04a01f5d544071b89e92e819c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 19/47] fix: narpMain() started the simulation in the second
 season

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index cdaa8b6..3046788 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -94,7 +94,7 @@ def narpMain(TEST_DIR):
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
     ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
-    IQ = 0  # initialize the quarter index to be 0 (i.e., the 1st quarter)
+    IQ = -1  # the quarterly event at the very beginning enters the 1st quarter
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
     XLAST = 0.0  # initial values for convergence-related quantities
-- 
2.43.0


From a2ca01a12cca009dd231128a93539072f55fcf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 20/47] fix: the season ends given by the user were ignored

---
 reliabilityassessment/monte_carlo/initl.py    | 9 +++++----
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/initl.py b/reliabilityassessment/monte_carlo/initl.py
index d94c98c..cc1f507 100644
--- a/reliabilityassessment/monte_carlo/initl.py
+++ b/reliabilityassessment/monte_carlo/initl.py
@@ -74,13 +74,14 @@ def _initl(JSTEP, EVNTS, IPOINT, MFA, NUMINQ, QTR):
     return ATRIB, CLOCK, IPOINT, MFA, NUMINQ
 
 
-def initl(JSTEP, EVNTS):
+def initl(JSTEP, EVNTS, QTR=(2184.5, 4368.5, 6552.5)):
     """
     Initialization for the Monte Carlo Simulation
 
     :param int JSTEP: frequency of simulation statistics collection, 1: hourly 24:
         daily, i.e. only peak stats are collected
     :param numpy.ndarray EVNTS: 1D array of events
+    :param numpy.ndarray QTR: first hour index of the last three quarters of a year
     :return: (*tuple*) -- ATRIB: events attribute vector of length 2
                                  ATRIB[0] -- global simulation clock (in unit: hour)
                                  ATRIB[1] -- int, simulation type
@@ -102,9 +103,9 @@ def initl(JSTEP, EVNTS):
     EVNTS[:28] = np.array(
         [
             24,   0.5,    3, 0.0,  # noqa: E241 1st quarterly state change
-            8.0,  2184.5, 3, 0.0,  # noqa: E241 2nd quarterly state change
-            12.0, 4368.5, 3, 0.0,  # noqa: E241 3rd quarterly state change
-            16.0, 6552.5, 3, 0.0,  # noqa: E241 4th quarterly state change
+            8.0,  QTR[0], 3, 0.0,  # noqa: E241 2nd quarterly state change
+            12.0, QTR[1], 3, 0.0,  # noqa: E241 3rd quarterly state change
+            16.0, QTR[2], 3, 0.0,  # noqa: E241 4th quarterly state change
             -1.0, 8760.0, 4, 0.0,  # noqa: E241 first call to subroutine "year"
             0,    0.5,    2, 0.0,  # noqa: E241 first call to subroutine "week"
             4.0,  JSTEP,  1, 0.0,  # noqa: E241 first Monte Carlo draw
diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 3046788..3bdea0a 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -93,7 +93,7 @@ def narpMain(TEST_DIR):
     # ----------------------------Finish data processing part--------------------------
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
-    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
+    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS, QTR)
     IQ = -1  # the quarterly event at the very beginning enters the 1st quarter
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
-- 
2.43.0


From 724ef7b08f31bf729c04436fd2dc70667ec64068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 21/47] fix: year() did not reset the annual statistics of
 every area and forecast tier

---
 reliabilityassessment/monte_carlo/year.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 45f622d..e1ab26a 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -634,14 +634,14 @@ def year(
     WGNTPP = 0.0
     WOLTPP = 0.0
 
-    LOLTHA[:NFCST, :NOAREA] = 0
-    LOLGHA[:NFCST, :NOAREA] = 0
-    MGNTHA[:NFCST, :NOAREA] = 0
-    MGNGHA[:NFCST, :NOAREA] = 0
-    LOLTPA[:NFCST, :NOAREA] = 0
-    LOLGPA[:NFCST, :NOAREA] = 0
-    MGNTPA[:NFCST, :NOAREA] = 0
-    MGNGPA[:NFCST, :NOAREA] = 0
+    LOLTHA[:NOAREA, :NFCST] = 0
+    LOLGHA[:NOAREA, :NFCST] = 0
+    MGNTHA[:NOAREA, :NFCST] = 0
+    MGNGHA[:NOAREA, :NFCST] = 0
+    LOLTPA[:NOAREA, :NFCST] = 0
+    LOLGPA[:NOAREA, :NFCST] = 0
+    MGNTPA[:NOAREA, :NFCST] = 0
+    MGNGPA[:NOAREA, :NFCST] = 0
 
     LOLTHP[:NFCST] = 0
     LOLGHP[:NFCST] = 0
-- 
2.43.0


From 80d4fdae3890ca39c2e19cdd477833061be50b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 22/47] fix: weighted pool statistics were lost at the end of
 every year

---
 reliabilityassessment/monte_carlo/narpMain.py | 25 ++++++++++---------
 reliabilityassessment/monte_carlo/year.py     |  2 +-
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 3bdea0a..34ae3a2 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -156,29 +156,30 @@ def narpMain(TEST_DIR):
     SOLTPA = np.zeros((NOAREA, 5))
     SOLTPP = np.zeros(5)
     SWLGHA = np.zeros(NOAREA)
-    SWLGHP = 0
+    # 0-dim. arrays, since the pool statistics are updated in place too
+    SWLGHP = np.zeros(())
     SWLGPA = np.zeros(NOAREA)
-    SWLGPP = 0
+    SWLGPP = np.zeros(())
     SWLSHA = np.zeros(NOAREA)
-    SWLSHP = 0
+    SWLSHP = np.zeros(())
     SWLSPA = np.zeros(NOAREA)
-    SWLSPP = 0
+    SWLSPP = np.zeros(())
     SWLTHA = np.zeros(NOAREA)
-    SWLTHP = 0
+    SWLTHP = np.zeros(())
     SWLTPA = np.zeros(NOAREA)
-    SWLTPP = 0
+    SWLTPP = np.zeros(())
     SWNGHA = np.zeros(NOAREA)
-    SWNGHP = 0
+    SWNGHP = np.zeros(())
     SWNGPA = np.zeros(NOAREA)
-    SWNGPP = 0
+    SWNGPP = np.zeros(())
     SWNSHA = np.zeros(NOAREA)
-    SWNSHP = 0
+    SWNSHP = np.zeros(())
     SWNSPA = np.zeros(NOAREA)
-    SWNSPP = 0
+    SWNSPP = np.zeros(())
     SWNTHA = np.zeros(NOAREA)
-    SWNTHP = 0
+    SWNTHP = np.zeros(())
     SWNTPA = np.zeros(NOAREA)
-    SWNTPP = 0
+    SWNTPP = np.zeros(())
     XNEWA = np.zeros((NOAREA, 3))
     XNEWP = np.zeros(3)
 
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index e1ab26a..7e53231 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -716,7 +716,7 @@ def year(
                 else:
                     SUM = SGNSPP[NOERR]
 
-    RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ)
+    RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, float(SUM), XLAST, SSQ)
     NOERR = 1
 
     if IYEAR == INTVT:
-- 
2.43.0


From bafd6453fd083c1088f978acffe5045bb4bc9382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 23/47] fix: year() failed to print pool results without a
 generation shortage

---
 reliabilityassessment/monte_carlo/year.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 7e53231..c9510c9 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -414,7 +414,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLSPA[J, N], XMGNP, XT)
+                        % (J, N, LOLSPA[J, N], XMGNP, XS)
                     )
 
             if WOLGHA[J] > 0.0:
@@ -485,13 +485,13 @@ def year(
         for N in range(NFCST):
             if LOLGHP[N] > 0:
                 XMGNH = (MGNGHP[N]) / (LOLGHP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNH = 0.0
 
             if LOLGPP[N] > 0:
                 XMGNP = (MGNGPP[N]) / (LOLGPP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNP = 0.0
 
             if INDX != 1:
                 f.write(
-- 
2.43.0


From ed2bac8eb62831d128e585d84738a3df26047f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 24/47] fix: cvchk() crashed when round-off made the variance
 negative

---
 reliabilityassessment/monte_carlo/cvchk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/cvchk.py b/reliabilityassessment/monte_carlo/cvchk.py
index 75cb245..5b63c03 100644
--- a/reliabilityassessment/monte_carlo/cvchk.py
+++ b/reliabilityassessment/monte_carlo/cvchk.py
@@ -34,7 +34,8 @@ def cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ):
 
     XX = CVTEST * XMEAN if CVTEST else 0.025 * XMEAN
 
-    STDERR = pow(((SSQ / IYEAR) - XMEAN**2) / IYEAR, 0.5)
+    # the variance may fall below zero by round-off
+    STDERR = pow(max((SSQ / IYEAR) - XMEAN**2, 0.0) / IYEAR, 0.5)
 
     # how many multiples of our "COV" to the given threshold
     XKCPXX = STDERR / XX if XX else 0.0
-- 
2.43.0


From c4c8ae002ffbaa225ead0ac4170dd5449fd73c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 25/47] fix: narpMain() allowed a zero width for the energy
 histogram

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 34ae3a2..595f3a7 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -83,7 +83,7 @@ def narpMain(TEST_DIR):
         NAMA,
     ) = dataf1(filepaths)
 
-    LSTEP = int(MAXEUE // 20)
+    LSTEP = max(int(MAXEUE // 20), 1)
     NUNITS = PROBG.shape[0]
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
-- 
2.43.0


From 772dfd7319878a5f7d579bb2197494cf65cd3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 26/47] fix: report() gave the pool the reserve of its last
 area

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index b7e95a5..ec2dec3 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -534,8 +534,8 @@ def report(
         SUSTAT[NO1, 0] += SUSTAT[i, 0]
         SUSTAT[NO1, 1] += SUSTAT[i, 1]
 
-    if SUSTAT[i, 0] > 0:
-        SUSTAT[NO1, 2] = (SUSTAT[i, 1] - SUSTAT[i, 0]) / SUSTAT[i, 0] * 100
+    if SUSTAT[NO1, 0] > 0:
+        SUSTAT[NO1, 2] = (SUSTAT[NO1, 1] - SUSTAT[NO1, 0]) / SUSTAT[NO1, 0] * 100
 
     if INDX != 1:
         SSHL = 0.0
-- 
2.43.0


From f754a95b9cb540d076b044087353e8c67ed2463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 27/47] fix: report() printed NaN when round-off made a
 variance negative

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index ec2dec3..68d993d 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -451,10 +451,10 @@ def report(
 
     for IAR in range(NOAREA):
         for J in range(3):
-            SSQA[IAR, J] = (SSQA[IAR, J] / XYEAR) ** 0.5
+            SSQA[IAR, J] = (max(SSQA[IAR, J], 0) / XYEAR) ** 0.5
 
     for J in range(3):
-        SSQP[J] = (SSQP[J] / XYEAR) ** 0.5
+        SSQP[J] = (max(SSQP[J], 0) / XYEAR) ** 0.5
 
     SUSTAT[NOAREA, 3] = XLOL
     SUSTAT[NOAREA, 4] = XLOLP
-- 
2.43.0


From 99b3e367216ce5a4f1f4f60f8daaaba5bf9480fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 28/47] fix: year() wrote dummy random seeds into the snapshot

---
 reliabilityassessment/monte_carlo/events.py |  2 ++
 reliabilityassessment/monte_carlo/year.py   | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/events.py b/reliabilityassessment/monte_carlo/events.py
index d435845..4732c82 100644
--- a/reliabilityassessment/monte_carlo/events.py
+++ b/reliabilityassessment/monte_carlo/events.py
@@ -357,6 +357,8 @@ def events(
             SWNTPP,
             XNEWA,
             XNEWP,
+            IGSEED,
+            ILSEED,
         )
         return (
             RFLAG,
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index c9510c9..62acfa2 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -106,6 +106,8 @@ def year(
     SWNTPP,
     XNEWA,
     XNEWP,
+    IGSEED=123,
+    ILSEED=123,
 ):
     """
     Update and summarize all reliability statistics when this 'simulation-year' event is triggered
@@ -731,8 +733,8 @@ def year(
             ITAB,
             INTVT,
             EVNTS,
-            123,  # IGSEED,
-            123,  # ILSEED,
+            IGSEED,
+            ILSEED,
             LT,
             BB,
             ZB,
@@ -798,8 +800,8 @@ def year(
                 ITAB,
                 INTVT,
                 EVNTS,
-                123,  # IGSEED,
-                123,  # ILSEED,
+                IGSEED,
+                ILSEED,
                 LT,
                 BB,
                 ZB,
-- 
2.43.0


From f4a8942e43a3f560142346f5193f04e48cb317ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 29/47] fix: the snapshot lacked the weighted pool totals

---
 reliabilityassessment/monte_carlo/intm.py | 24 +++++++++++++++++++++++
 reliabilityassessment/monte_carlo/year.py | 24 +++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/intm.py b/reliabilityassessment/monte_carlo/intm.py
index 2a4e5ef..85902e8 100644
--- a/reliabilityassessment/monte_carlo/intm.py
+++ b/reliabilityassessment/monte_carlo/intm.py
@@ -60,6 +60,18 @@ def intm(
     XNEWP,
     WOLSHA,
     LSFLG,
+    SWLGHP=0.0,
+    SWLGPP=0.0,
+    SWLSHP=0.0,
+    SWLSPP=0.0,
+    SWLTHP=0.0,
+    SWLTPP=0.0,
+    SWNGHP=0.0,
+    SWNGPP=0.0,
+    SWNSHP=0.0,
+    SWNSPP=0.0,
+    SWNTHP=0.0,
+    SWNTPP=0.0,
 ):
     """
     Save intermediate results into a pickle file, DUMP.pkl, in case of unintentional or
@@ -137,6 +149,18 @@ def intm(
         "XNEWP": XNEWP,
         "WOLSHA": WOLSHA,
         "LSFLG": LSFLG,
+        "SWLGHP": SWLGHP,
+        "SWLGPP": SWLGPP,
+        "SWLSHP": SWLSHP,
+        "SWLSPP": SWLSPP,
+        "SWLTHP": SWLTHP,
+        "SWLTPP": SWLTPP,
+        "SWNGHP": SWNGHP,
+        "SWNGPP": SWNGPP,
+        "SWNSHP": SWNSHP,
+        "SWNSPP": SWNSPP,
+        "SWNTHP": SWNTHP,
+        "SWNTPP": SWNTPP,
     }
 
     with open("DUMP.pkl", "wb") as fp:
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 62acfa2..23ec8bf 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -781,6 +781,18 @@ def year(
             XNEWP,
             WOLSHA,
             LSFLG,
+            SWLGHP,
+            SWLGPP,
+            SWLSHP,
+            SWLSPP,
+            SWLTHP,
+            SWLTPP,
+            SWNGHP,
+            SWNGPP,
+            SWNSHP,
+            SWNSPP,
+            SWNTHP,
+            SWNTPP,
         )
 
         INTVT += INTV
@@ -848,6 +860,18 @@ def year(
                 XNEWP,
                 WOLSHA,
                 LSFLG,
+                SWLGHP,
+                SWLGPP,
+                SWLSHP,
+                SWLSPP,
+                SWLTHP,
+                SWLTPP,
+                SWNGHP,
+                SWNGPP,
+                SWNSHP,
+                SWNSPP,
+                SWNTHP,
+                SWNTPP,
             )
 
     if RFLAG == 1 or CLOCK >= FINISH:
-- 
2.43.0


From 456f885688027c13facee29004d96c035b647273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 30/47] fix: the snapshot held the year of a past snapshot as
 the next one

---
 reliabilityassessment/monte_carlo/year.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 23ec8bf..a4bef22 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -722,6 +722,7 @@ def year(
     NOERR = 1
 
     if IYEAR == INTVT:
+        INTVT += INTV
         intm(
             ATRIB,
             CLOCK,
@@ -795,8 +796,6 @@ def year(
             SWNTPP,
         )
 
-        INTVT += INTV
-
     else:  # if IYEAR != INTVT
         assert type(IYEAR) is int
         IFIN = int(FINISH / 8760)
-- 
2.43.0


From 11676c4702ff9c7f0ddbd2b68057773edbd1ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 31/47] fix: pmsc() moved the user's planned outages of the
 only unit in an area

---
 reliabilityassessment/data_processing/pmsc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index 8c51e70..53fe7fa 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -861,6 +861,8 @@ def pmsc(
     for i in range(NGU):
         IND = ID1[i, 0]
         IND = NR0[IND]
+        if ID[IND, 7] == 1:  # scheduled by the user
+            continue
         ID[IND, 3] = (
             ID1[i, 3] // 168 + 1
         )  # maybe remvoe "+1" here; ID1[i, 3] / 168 + 1 in Fortran
-- 
2.43.0


From 285fc57745c1e7751e8b9187158b5dbc70462fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 32/47] fix: smaint() listed a unit twice when its two planned
 outages overlap

---
 reliabilityassessment/data_processing/smaint.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index 611cf17..e99c773 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -91,8 +91,13 @@ def smaint(
                 j1 = ID[i, wi]
                 # the index of last week of a simulation year is 51 (j2 is exclusive)
                 j2 = min(52, j1 + ID[i, wi + 1])
-                # increase total number of units under maintenance for the weeks
-                JPLOUT[j1:j2, 0] += 1
-                JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
+                for j in range(j1, j2):
+                    # the two planned outages of a unit may overlap: a unit is
+                    # listed once per week
+                    if int(ID[i, 0]) in JPLOUT[j, 1 : 1 + JPLOUT[j, 0]]:
+                        continue
+                    # increase total number of units under maintenance for the week
+                    JPLOUT[j, 0] += 1
+                    JPLOUT[j, JPLOUT[j, 0]] = int(ID[i, 0])
 
     return JPLOUT, ITAB
-- 
2.43.0


From a186fa06588fe92c16825852a7bee0083432257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 33/47] fix: resca() took the ratings of the previous season
 for a peak on its first day

---
 reliabilityassessment/data_processing/resca.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index aa6a8ab..d19979c 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,8 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.sum(QTR < IDAY * 24)
+        # IDAY is 0-based: compare the end of the peak day with the season ends
+        IPER = np.sum(QTR < (IDAY + 1) * 24)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
@@ -81,7 +82,7 @@ def _resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IHR = IDAY * 24
+        IHR = (IDAY + 1) * 24
         IPER = 0
 
         if IHR > QTR[0]:
-- 
2.43.0


From ab5c93972a65f1abcf534fa1f120d9cfe2bec559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 34/47] fix: a crash while the snapshot was written destroyed
 the last good one

---
 reliabilityassessment/monte_carlo/intm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/intm.py b/reliabilityassessment/monte_carlo/intm.py
index 85902e8..d125b3e 100644
--- a/reliabilityassessment/monte_carlo/intm.py
+++ b/reliabilityassessment/monte_carlo/intm.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 
 
@@ -163,5 +164,7 @@ def intm(
         "SWNTPP": SWNTPP,
     }
 
-    with open("DUMP.pkl", "wb") as fp:
+    # an interruption must never leave a damaged snapshot behind
+    with open("DUMP.pkl.tmp", "wb") as fp:
         pickle.dump(snapshot_data, fp)
+    os.replace("DUMP.pkl.tmp", "DUMP.pkl")
-- 
2.43.0


From d6ecc32521d3ae8fbafdb611e6694446e5c34245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 35/47] fix: tm2() kept only the last record of the
 transmission trace

---
 reliabilityassessment/monte_carlo/tm2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 7e92110..7b17259 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -184,7 +184,7 @@ def tm2(
         FLOW[0 : NXD2 - NXD1 + 1] = RES[NXD1 - 1 : NXD2, 0].copy()
 
         if IOI != 0:
-            f = open("traout.txt ", "w")  # maybe 'a' ; need later check
+            f = open("traout.txt ", "a")
             f.write("\n     %8d  %4d  %1d\n" % (LCLOCK, JHOUR, JFLAG))
 
             # print table of units on outage or derated to traout file
@@ -265,7 +265,7 @@ def tm2(
         # except the JFLAG logic in file writing. Maybe we can put it in a
         # function to reduce duplicated code. (may consider in the future)
         if IOI != 0:
-            f = open("traout.txt ", "w")  # maybe 'a' ; need later check
+            f = open("traout.txt ", "a")
             f.write("\n     %8d  %4d  %1d\n" % (LCLOCK, JHOUR, JFLAG))
             JXX = 0
             for i in range(NUNITS):
-- 
2.43.0


From e555a5b19a9921dfd146748bf6336aee3c0dd143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 36/47] fix: hrstat() and pkstat() charged a loss without a
 pool deficit to two causes

---
 reliabilityassessment/monte_carlo/hrstat.py | 4 ++--
 reliabilityassessment/monte_carlo/pkstat.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/hrstat.py b/reliabilityassessment/monte_carlo/hrstat.py
index b4bdef8..4b93d88 100644
--- a/reliabilityassessment/monte_carlo/hrstat.py
+++ b/reliabilityassessment/monte_carlo/hrstat.py
@@ -56,7 +56,7 @@ def hrstat(
     for j, X in enumerate(MARGIN):
         if X < 0.0:
             LSFLG[j] += 1
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTHA[j, NST] += 1
                 MGNTHA[j, NST] += int(-X)
                 MGNTHP[NST] += int(-X)
@@ -122,7 +122,7 @@ def _hrstat(
         LOLGHP[NST] += 1
 
     LSFLG[MARGIN < 0] += 1
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTHA[:, NST][MARGIN < 0] += 1
         MGNTHA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTHP[NST] -= int(MARGIN[MARGIN < 0].sum())
diff --git a/reliabilityassessment/monte_carlo/pkstat.py b/reliabilityassessment/monte_carlo/pkstat.py
index c5a6d11..49da100 100644
--- a/reliabilityassessment/monte_carlo/pkstat.py
+++ b/reliabilityassessment/monte_carlo/pkstat.py
@@ -53,7 +53,7 @@ def _pkstat(
 
     for j, X in enumerate(MARGIN):
         if X < 0.0:
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTPA[j, NST] += 1
                 MGNTPA[j, NST] -= int(X)
                 MGNTPP[NST] -= int(X)
@@ -114,7 +114,7 @@ def pkstat(NST, MARGIN, LOLGPA, LOLGPP, LOLTPA, LOLTPP, MGNGPA, MGNGPP, MGNTPA,
     else:
         LOLGPP[NST] += 1
 
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTPA[:, NST][MARGIN < 0] += 1
         MGNTPA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTPP[NST] -= MARGIN[MARGIN < 0].sum().astype(int)
-- 
2.43.0


From 1d4e345e175177533e29ec370034dd8b267c46c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:22 +0000
Subject: [PATCH 37/47] fix: tm1() crashed when no line connects an area with
 the others

---
 reliabilityassessment/monte_carlo/admitb.py | 6 ++++--
 reliabilityassessment/monte_carlo/tm1.py    | 7 +++++--
 reliabilityassessment/monte_carlo/tm2.py    | 2 +-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/admitb.py b/reliabilityassessment/monte_carlo/admitb.py
index 90a57c3..f1b4152 100644
--- a/reliabilityassessment/monte_carlo/admitb.py
+++ b/reliabilityassessment/monte_carlo/admitb.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 
-def admitb(LP, BLP):
+def admitb(LP, BLP, NOAREA=None):
     """
     Construct the admittance matrix (B) from the line data array (BLP)
 
@@ -13,12 +13,14 @@ def admitb(LP, BLP):
                               BLP[I, 0]: admittance of the line at the Ith entry of LP
                               BLP[I, 1]: capacity (MW)
                               BLP[I, 2]: backward capacity (MW)
+    :param int NOAREA: total number of areas; by default, up to the last one with a line
     :return: (*numpy.ndarray*) -- BB: 2D array with shape (NOAREA, NOAREA)
         B Matrix in DC power flow
     """
 
     NLINES = LP.shape[0]
-    NOAREA = 1 + LP[:, 1:].max()
+    if NOAREA is None:
+        NOAREA = 1 + LP[:, 1:].max()
     BB = np.zeros((NOAREA, NOAREA))
     for i in range(NLINES):
         j = LP[i, 1]  # from-bus (area) id
diff --git a/reliabilityassessment/monte_carlo/tm1.py b/reliabilityassessment/monte_carlo/tm1.py
index 2397b1b..c7ea0ff 100644
--- a/reliabilityassessment/monte_carlo/tm1.py
+++ b/reliabilityassessment/monte_carlo/tm1.py
@@ -40,10 +40,13 @@ def tm1(BN, LP, BLP, NR):
     NOAREA = BN.shape[0]
     NX = NOAREA - 1
     BLP0 = BLP[:, 0].copy()
-    BB = admitb(LP, BLP)  # generate B matrix
+    BB = admitb(LP, BLP, NOAREA)  # generate B matrix
     BB, LT = admitr(BB, BN, NR)  # generate B matrix without ref bus
 
-    ZB = np.linalg.inv(BB[:NX, :NX])
+    # areas that no line connects with the others: there is no inverse then, and
+    # tm2() leaves every dispatch to the LP
+    SPLIT = np.linalg.matrix_rank(BB[:NX, :NX]) < NX
+    ZB = np.zeros((NX, NX)) if SPLIT else np.linalg.inv(BB[:NX, :NX])
     ZB = np.pad(ZB, ((0, 1), (0, 1)))
 
     return BLP0, BB, LT, ZB
diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 7b17259..042b560 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -107,7 +107,7 @@ def tm2(
 
     # line outages may split the network: ZB does not exist then, and only the LP
     # can tell which injections the islands can exchange
-    TOL = 1e-9 * np.abs(BLP0).max()
+    TOL = 1e-9 * np.abs(BLP0).max(initial=0.0)
     SPLIT = np.linalg.matrix_rank(BB[:NX, :NX], tol=TOL) < NX
 
     # Assigns injections at buses so as to balance
-- 
2.43.0


From 467c266e1678ec51f8f7c57e82160aecc940da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 38/47] fix: readInputB() could not do without the optional
 input files

---
 .../data_processing/readInputB.py             | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index 6dcfa8b..4cf371e 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -4,6 +4,19 @@ import numpy as np
 import pandas as pd
 
 
+def read_optional_csv(filepath, name, columns):
+    """
+    Read a data card which the user may leave out.
+
+    :param str filepath: root file path for input csvs.
+    :param str name: file name of the data card.
+    :param list columns: names of the columns of the data card.
+    :return: (*pandas.DataFrame*) -- the data card, without entries if there is no file
+    """
+    file = os.path.join(filepath, name)
+    return pd.read_csv(file) if os.path.exists(file) else pd.DataFrame(columns=columns)
+
+
 def read_card_ZZTC(filepath):
     """
     ZZTC: title card
@@ -412,7 +425,11 @@ def read_card_ZZFC(filepath):
     Default values (zero , empty , None, etc.) will be given here
     """
 
-    df_ZZFC = pd.read_csv(os.path.join(filepath, "ZZFC.csv"))
+    df_ZZFC = read_optional_csv(
+        filepath,
+        "ZZFC.csv",
+        ["SN", "FROM AREA", "TO AREA", "BEG DAY", "END DAY", "MW"],
+    )
     data = dict()
 
     """
@@ -457,7 +474,9 @@ def read_card_ZZOD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZOD = pd.read_csv(os.path.join(filepath, "ZZOD.csv"))
+    df_ZZOD = read_optional_csv(
+        filepath, "ZZOD.csv", ["SN", "UNIT NAME", "PERCENT OWNED BY AREA"]
+    )
     data = dict()
 
     """
@@ -499,7 +518,13 @@ def read_card_ZZDD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZDD = pd.read_csv(os.path.join(filepath, "ZZDD.csv"))
+    df_ZZDD = read_optional_csv(
+        filepath,
+        "ZZDD.csv",
+        ["SN", "LINE NUMBER"]
+        + ["UNIT%d" % i for i in range(1, 5)]
+        + ["FORWARD", "BACKWARD"],
+    )
     data = dict()
 
     """
-- 
2.43.0


From 14f819fff535456f6fa27a6567a2e4d8c3caa5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 39/47] fix: datax() numbered the lines between areas by the
 user's line numbers

---
 reliabilityassessment/data_processing/datax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index a3c8dc3..e039337 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -157,7 +157,7 @@ def datax(inputB_dict):
     LP[:, 0] = deepcopy(inputB_dict["ZZTD"]["LineID"])  # idx (int) for the line
     LP[:, 1] = deepcopy(inputB_dict["ZZTD"]["NAR"])  # idx (int) for 'from area'
     LP[:, 2] = deepcopy(inputB_dict["ZZTD"]["NAE"])
-    LINENO[LP[:, 1], LP[:, 2]] = LP[:, 0]  # idx (int) for 'to area'
+    LINENO[LP[:, 1], LP[:, 2]] = range(NLINES)  # idx (int) for 'to area'
 
     # Convert discrete probability to cumulative probability
     # PROBL(k,l) cumulative probability that line l is in state k, k=0,...5
-- 
2.43.0


From 3eba79ed2663bc97963790c4094355df796ec819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 40/47] fix: datax() could not store the contracts of more than
 60 pairs of areas

---
 reliabilityassessment/data_processing/datax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index e039337..de18cf5 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -111,7 +111,8 @@ def datax(inputB_dict):
     # if "-1", means none (use "0" here will cause bug since "0-based array index" in Python)
     # otherwise, means the integer index L used in INTCH(L,N).
     JENT = -1 * np.ones((NOAREA, NOAREA), dtype=int)
-    MAX_CONTRACTS = 60  # the maximum possible count of fixed contracts; can be adjusted
+    # the maximum possible count of fixed contracts
+    MAX_CONTRACTS = max(60, NOAREA * NOAREA)
 
     # INTCH(L,N): contract interchanges MW between areas indicated by pointer L, day N.
     INTCH = np.zeros((MAX_CONTRACTS, 365))
-- 
2.43.0


From 50857dadb0b53efbd307af883f3ebf1316f7b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 41/47] fix: readInputB() ignored the serial numbers of the
 data cards

---
 reliabilityassessment/data_processing/readInputB.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index 4cf371e..9a977e4 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -191,7 +191,9 @@ def read_card_ZZLD(filepath):
     :return: (*dict*) -- a dictionary contains info from the raw dataframe with
         designated keys.
     """
-    df_ZZLD = pd.read_csv(os.path.join(filepath, "ZZLD.csv"))
+    df_ZZLD = pd.read_csv(os.path.join(filepath, "ZZLD.csv")).sort_values(
+        "SN", kind="stable"
+    )
     data = dict()
 
     RATES = np.zeros((len(df_ZZLD), 3))
@@ -269,7 +271,9 @@ def read_card_ZZUD(filepath):
         designated keys.
     """
 
-    df_ZZUD = pd.read_csv(os.path.join(filepath, "ZZUD.csv"))
+    df_ZZUD = pd.read_csv(os.path.join(filepath, "ZZUD.csv")).sort_values(
+        "SN", kind="stable"
+    )
     data = dict()
 
     # Note: the original Fortran code set the HRLOAD array as INT type;
@@ -368,7 +372,9 @@ def read_card_ZZTD(filepath):
         designated keys.
     """
 
-    df_ZZTD = pd.read_csv(os.path.join(filepath, "ZZTD.csv"))
+    df_ZZTD = pd.read_csv(os.path.join(filepath, "ZZTD.csv")).sort_values(
+        "SN", kind="stable"
+    )
     data = dict()
 
     ADM = np.zeros((len(df_ZZTD), 6))
-- 
2.43.0


From 2c277199b31b2c0a149b99fd369a9d886902270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 42/47] fix: read_card_ZZTC() crashed on titles with commas or
 only a number

---
 reliabilityassessment/data_processing/readInputB.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index 9a977e4..92434a0 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -1,3 +1,4 @@
+import csv
 import os
 
 import numpy as np
@@ -27,8 +28,8 @@ def read_card_ZZTC(filepath):
     :return: (*string*) -- A string describes some basic information about
                             the studied power system (e.g., how many areas).
     """
-    df_ZZTC = pd.read_csv(os.path.join(filepath, "ZZTC.csv"), header=None).to_numpy()
-    data = ". ".join([s[0] for s in df_ZZTC])
+    with open(os.path.join(filepath, "ZZTC.csv"), newline="") as file:
+        data = ". ".join([",".join(row) for row in csv.reader(file) if row])
     return data
 
 
-- 
2.43.0


From 8bef900872a35430c25823cafc36e8f9c2404c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 43/47] fix: narpMain() retained the snapshot when the user
 asked to delete it

---
 reliabilityassessment/monte_carlo/narpMain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 595f3a7..075b9e3 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -3,6 +3,7 @@ from pathlib import Path
 import numpy as np
 
 from reliabilityassessment.data_processing.dataf1 import dataf1
+from reliabilityassessment.data_processing.readInputB import read_card_ZZMC
 from reliabilityassessment.monte_carlo.contrl import contrl
 from reliabilityassessment.monte_carlo.initfl import initfl
 from reliabilityassessment.monte_carlo.initl import initl
@@ -314,3 +315,6 @@ def narpMain(TEST_DIR):
         IGSEED,
         ILSEED,
     )
+
+    if read_card_ZZMC(TEST_DIR)["IREM"] == 0:  # the snapshot is not to be retained
+        Path("DUMP.pkl").unlink(missing_ok=True)
-- 
2.43.0


From fa9e1e9d78c2f60de89285846657813189bc78cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:59 +0000
Subject: [PATCH 44/47] fix: narpMain() ignored the seed given on the ZZMC card

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 075b9e3..1817402 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -89,7 +89,7 @@ def narpMain(TEST_DIR):
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
     # seeding:
-    JSEED = 123456
+    JSEED = read_card_ZZMC(TEST_DIR)["JSEED"]
     IGSEED, ILSEED = seeder(JSEED, NUNITS, NLINES)
     # ----------------------------Finish data processing part--------------------------
 
-- 
2.43.0


From 04496a6c6c8ccd11ca8aba568f8be045ab785bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:59 +0000
Subject: [PATCH 45/47] fix: hour() truncated margins that are whole up to
 round-off

---
 reliabilityassessment/monte_carlo/hour.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index b6266e7..f7f3343 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -142,7 +142,7 @@ def hour(
         CAPREQ = findld(NST, JHOUR, HRLOAD, FCTERR)
 
         FLAG = 0
-        MARGIN = (SYSCON[:NOAREA] - CAPREQ[:NOAREA]).astype(int)
+        MARGIN = np.round(SYSCON[:NOAREA] - CAPREQ[:NOAREA], 6).astype(int)
         FLAG += sum(MARGIN < 0)
 
         if FLAG == 0:
@@ -211,7 +211,7 @@ def hour(
                 )
             TEMPFL = 0.0
 
-            MARGIN = (-SADJ[:NOAREA]).astype(int)
+            MARGIN = np.round(-SADJ[:NOAREA], 6).astype(int)
             TEMPFL = int(any(MARGIN < 0))
 
             if TEMPFL == 0:
-- 
2.43.0


From 0980df14c86b1a24c764e06dc445319c0d84424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:03 +0000
Subject: [PATCH 46/47] fix: networks of about twenty areas overflowed the
 arrays of the linear program

---
 reliabilityassessment/monte_carlo/conls.py  | 5 +++--
 reliabilityassessment/monte_carlo/connls.py | 5 +++--
 reliabilityassessment/monte_carlo/tm2.py    | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/conls.py b/reliabilityassessment/monte_carlo/conls.py
index a8a18e5..5b2007d 100644
--- a/reliabilityassessment/monte_carlo/conls.py
+++ b/reliabilityassessment/monte_carlo/conls.py
@@ -83,8 +83,9 @@ def conls(BC, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS):
     NP1 = 3 * NX + 1
     NP = 2 * NX + 1
     NP2 = NP1 + NX1
-    NMAX1 = 250
-    NMAX2 = 200
+    # room for all columns and rows of a network of any size
+    NMAX1 = max(250, 2 * NX + 7 * NX1 + 2 * BLP.shape[0])
+    NMAX2 = max(200, 5 * NX1 + 2 * BLP.shape[0])
 
     # Index-related array must be initialized "-1"!
     IEQ = (-1) * np.ones(NX + 1, dtype=int)  # originally in Fortran np.zeros(20)
diff --git a/reliabilityassessment/monte_carlo/connls.py b/reliabilityassessment/monte_carlo/connls.py
index 49f537b..396f5ea 100644
--- a/reliabilityassessment/monte_carlo/connls.py
+++ b/reliabilityassessment/monte_carlo/connls.py
@@ -92,8 +92,9 @@ def connls(BC, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS):
                            And modify several arrays in place.
     """
 
-    NMAX2 = 200
-    NMAX1 = 250
+    # room for all columns and rows of a network of any size
+    NMAX2 = max(200, 4 * (NX + 1) + 2 * BLP.shape[0])
+    NMAX1 = max(250, 2 * NX + 5 * (NX + 1) + 2 * BLP.shape[0])
 
     # Index-related array must be initialized "-1"!
     IEQ = (-1) * np.ones(NX + 1, dtype=int)  # originally in Fortran np.zeros(20)
diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 042b560..1c9fb93 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -154,7 +154,8 @@ def tm2(
         ZB[:NX, :NX] = ZT[:NX, :NX].copy()
         return FLOW, INDIC
 
-    RES = np.zeros((250, 3))  # may use "N" as its size (check later)
+    # room for all columns of the LP
+    RES = np.zeros((max(250, 9 * NN + 2 * NL), 3))
     NUNITS = len(PLNDST)
     NNTAB = np.zeros(NUNITS)  # in Fortran, np.zeros(600)
 
-- 
2.43.0


From b8d2a39e0dba7c7f010c31ff28690d2787494999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:03 +0000
Subject: [PATCH 47/47] fix: areas of more than 500 units overflowed the arrays
 of the maintenance scheduler

---
 reliabilityassessment/data_processing/pmsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index 53fe7fa..512623b 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -70,7 +70,7 @@ def pmsc(
     """
 
     ITC = ITAB
-    INUO = 500  # the possible maximum number of units
+    INUO = max(500, ID.shape[0])  # the possible maximum number of units
     INPO = 150  # the possible maximum number of plants
 
     N = 0  # N is the highest plant number
-- 
2.43.0

