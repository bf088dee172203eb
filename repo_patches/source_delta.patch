From 45ae6b524d17ba4d5358e6e1e093ae529882a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 001/219] fix: validate GPS L2/L5 tracking attributes by band

---
 src/cssrlib/gnss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index f5bd40f..84ea328 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -477,8 +477,8 @@ class rSigRnx():
         if len(s) == 3:
             if sys == uGNSS.GPS:
                 if (s[1] == '1' and s[2] not in 'CSLXPWYM') or \
-                   (s[2] == '2' and s[2] not in 'CDSLXPWYMN') or \
-                   (s[2] == '5' and s[2] not in 'IQX'):
+                   (s[1] == '2' and s[2] not in 'CDSLXPWYMN') or \
+                   (s[1] == '5' and s[2] not in 'IQX'):
                     raise ValueError
             elif sys == uGNSS.GLO:
                 if (s[1] == '1' and s[2] not in 'CPX') or \
-- 
2.43.0


From 02c9145518d15ef247a1e8aa73b6e07c80dbbaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 002/219] fix: NavIC L5 and GLONASS G2a carrier frequencies

---
 src/cssrlib/gnss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 84ea328..9d10df1 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -55,7 +55,7 @@ class rCST():
     FREQ_R2 = 1246.000e6     # [Hz] GLO G2   FDMA center frequency
     FREQ_R2k = 437.500e3     # [Hz] GLO G2   FDMA frequency separation
     FREQ_R1a = 1600.995e6    # [Hz] GLO G1a
-    FREQ_R2a = 1248.065e6    # [Hz] GLO G2a
+    FREQ_R2a = 1248.06e6     # [Hz] GLO G2a
     FREQ_R3 = 1202.025e6     # [Hz] GLO G3
 
     FREQ_E1 = 1575.42e6      # [Hz] GAL E1
@@ -81,7 +81,7 @@ class rCST():
     FREQ_S5 = 1176.45e6      # [Hz] SBS L5
 
     FREQ_I1 = 1575.42e6      # [Hz] IRS L1
-    FREQ_I5 = 1191.795e6     # [Hz] IRS L5
+    FREQ_I5 = 1176.45e6      # [Hz] IRS L5
     FREQ_IS = 2492.028e6     # [Hz] IRS S
 
     COS_5 = 0.9961946980917456
-- 
2.43.0


From 0edcef3ea7fe2fbd9690695a624627b6750f55b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 003/219] fix: GLONASS G2a (RINEX band 6) has a carrier
 frequency

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 9d10df1..510559d 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -574,7 +574,7 @@ class rSigRnx():
                 return rCST.FREQ_R3
             elif int(self.sig / 100) == 4:
                 return rCST.FREQ_R1a
-            elif int(self.sig / 100) == 5:
+            elif int(self.sig / 100) in (5, 6):
                 return rCST.FREQ_R2a
             else:
                 return None
-- 
2.43.0


From eda0587669f3454ea8501593a179b60afde28644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 004/219] fix: pos2ecef() must not modify the position of the
 caller

---
 src/cssrlib/gnss.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 510559d..913dd4b 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1437,8 +1437,7 @@ def ecef2pos(r):
 def pos2ecef(pos, isdeg: bool = False):
     """ LLH (rad/deg) to ECEF position conversion  """
     if isdeg:
-        pos[0] *= np.pi/180.0
-        pos[1] *= np.pi/180.0
+        pos = [pos[0]*np.pi/180.0, pos[1]*np.pi/180.0, pos[2]]
     s_p = sin(pos[0])
     c_p = cos(pos[0])
     s_l = sin(pos[1])
-- 
2.43.0


From 21d028318e6972c679fe0686d1fd907e6423e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 005/219] fix: satazel() must not raise for a satellite at the
 zenith

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 913dd4b..4d63bc8 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1501,7 +1501,7 @@ def satazel(pos, e):
     """ calculate az/el from LOS vector in ECEF (e) """
     enu = ecef2enu(pos, e)
     az = atan2(enu[0], enu[1])
-    el = asin(enu[2])
+    el = asin(max(-1.0, min(1.0, enu[2])))
     return az, el
 
 
-- 
2.43.0


From f6721143fa4a43e9921abbc6355f93e15df129c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 006/219] fix: glo2time() returns UTC (leap seconds were
 applied twice)

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 4d63bc8..b80d019 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1015,7 +1015,7 @@ def glo2time(tref: gtime_t, tod):
     elif tod > tod_p+43200.0:
         tod -= 86400.0
     time = gpst2time(week, tow+tod)
-    return utc2gpst(timeadd(time, -10800.0))
+    return timeadd(time, -10800.0)
 
 
 def gpst2utc(t: gtime_t):
-- 
2.43.0


From 6cf73443a1011d0186b9155a2e0cb6ff9cd65d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 007/219] fix: week/time-of-week conversions with negative
 time-of-week

---
 src/cssrlib/gnss.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index b80d019..f67e1fb 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1057,8 +1057,8 @@ def gpst2time(week, tow):
     t = epoch2time(gpst0)
     if tow < -1e9 or tow > 1e9:
         tow = 0.0
-    t.time += 86400*7*week+int(tow)
-    t.sec = tow-int(tow)
+    t.time += 86400*7*week+floor(tow)
+    t.sec = tow-floor(tow)
     return t
 
 
@@ -1066,7 +1066,7 @@ def time2gpst(t: gtime_t):
     """ convert to gps-time from time """
     t0 = epoch2time(gpst0)
     sec = t.time-t0.time
-    week = int(sec/(86400*7))
+    week = sec//(86400*7)
     tow = sec-week*86400*7+t.sec
     return week, tow
 
@@ -1076,8 +1076,8 @@ def gst2time(week, tow):
     t = epoch2time(gst0)
     if tow < -1e9 or tow > 1e9:
         tow = 0.0
-    t.time += 86400*7*week+int(tow)
-    t.sec = tow-int(tow)
+    t.time += 86400*7*week+floor(tow)
+    t.sec = tow-floor(tow)
     return t
 
 
@@ -1085,7 +1085,7 @@ def time2gst(t: gtime_t):
     """ convert to galileo system time from time """
     t0 = epoch2time(gst0)
     sec = t.time-t0.time
-    week = int(sec/(86400*7))
+    week = sec//(86400*7)
     tow = sec-week*86400*7+t.sec
     return week, tow
 
@@ -1095,8 +1095,8 @@ def bdt2time(week, tow):
     t = epoch2time(bdt0)
     if tow < -1e9 or tow > 1e9:
         tow = 0.0
-    t.time += 86400*7*week+int(tow)
-    t.sec = tow-int(tow)
+    t.time += 86400*7*week+floor(tow)
+    t.sec = tow-floor(tow)
     return t
 
 
@@ -1114,7 +1114,7 @@ def time2bdt(t: gtime_t):
     """ convert to BeiDou system time from time """
     t0 = epoch2time(bdt0)
     sec = t.time-t0.time
-    week = int(sec/(86400*7))
+    week = sec//(86400*7)
     tow = sec-week*86400*7+t.sec
     return week, tow
 
-- 
2.43.0


From 019bc717cc52c7e4193bab89287efee842d614ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 008/219] fix: harmonic terms of the broadcast satellite
 velocity

---
 src/cssrlib/ephemeris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 5a1c699..de68a73 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -214,7 +214,7 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
         qq = np.array([si*sOmg, -si*cOmg, ci])
         Ed = n/nue
         nud = np.sqrt(1.0-eph.e**2)/nue*Ed
-        h2d = 2.0*nud*np.array([-h[1], h[0]])
+        h2d = 2.0*nud*np.array([-h2[1], h2[0]])
         ud = nud+np.array([eph.cuc, eph.cus])@h2d
         rd = Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
 
-- 
2.43.0


From c06666e8f68008e3fc695d5afc77837c1efb300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 009/219] fix: satellite velocity from CNAV-type ephemeris
 ignored Adot

---
 src/cssrlib/ephemeris.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index de68a73..85a7e23 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -212,11 +212,15 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
 
     if flg_v:  # satellite velocity
         qq = np.array([si*sOmg, -si*cOmg, ci])
-        Ed = n/nue
+        nd, Ad = n, 0.0
+        if eph.mode > 0:
+            nd += 0.5*dt*eph.delnd
+            Ad = eph.Adot
+        Ed = nd/nue
         nud = np.sqrt(1.0-eph.e**2)/nue*Ed
         h2d = 2.0*nud*np.array([-h2[1], h2[0]])
         ud = nud+np.array([eph.cuc, eph.cus])@h2d
-        rd = Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
+        rd = Ad*nue+Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
 
         hd = np.array([-h[1], h[0]])
         xod = rd*h+(r*ud)*hd
-- 
2.43.0


From 2387e18353d04511a856a676deecade4f1da2ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 010/219] fix: velocity of BDS GEO satellites

---
 src/cssrlib/ephemeris.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 85a7e23..bee1a81 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -225,12 +225,18 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
         hd = np.array([-h[1], h[0]])
         xod = rd*h+(r*ud)*hd
         incd = eph.idot+np.array([eph.cic, eph.cis])@h2d
-        omegd = eph.OMGd-omge
+        isgeo = sys == uGNSS.BDS and (prn <= 5 or prn >= 59)
+        omegd = eph.OMGd if isgeo else eph.OMGd-omge
 
         pd = np.array([-p[1], p[0], 0])*omegd
         qd = np.array([-q[1], q[0], 0])*omegd+qq*incd
 
         vs = xo@np.array([pd, qd])+xod@np.array([p, q])
+        if isgeo:
+            Md = omge*np.array([[-so, co*rCST.COS_5, co*rCST.SIN_5],
+                                [-co, -so*rCST.COS_5, -so*rCST.SIN_5],
+                                [0.0, 0.0, 0.0]])
+            vs = Mo@vs+Md@rg
         return rs, vs, dts
 
     return rs, dts
-- 
2.43.0


From b3a17ccdb305b9c19571808760d7097ecd6b5943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 011/219] fix: do not accumulate the orbit rate into the stored
 SBAS/PVS correction

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index bee1a81..af32127 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -366,7 +366,7 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
 
-                dorb += cs.lc[0].dvel[sat] * \
+                dorb = dorb + cs.lc[0].dvel[sat] * \
                     (timediff(t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
@@ -598,7 +598,7 @@ def satposs(obs, nav, cs=None, orb=None):
                 dorb = cs.lc[0].dorb[sat]  # radial,along-track,cross-track
 
                 if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                    dorb += cs.lc[0].dvel[sat] * \
+                    dorb = dorb + cs.lc[0].dvel[sat] * \
                         (timediff(obs.t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
-- 
2.43.0


From c696d462e0fec0db9caa16b0e7c7fbcca0d1547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 012/219] fix: single frequency group delay must not use the
 ephemeris of another satellite for GLONASS

---
 src/cssrlib/ephemeris.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index af32127..0d47439 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -483,7 +483,8 @@ def satpos(sat, t, nav, cs=None, orb=None):
                                sc.DGPS) and sys == uGNSS.GPS:
                 dts[i] -= eph.tgd
 
-        elif nav.smode == 1 and nav.nf == 1:  # standalone positioning
+        elif nav.smode == 1 and nav.nf == 1 and \
+                sys != uGNSS.GLO:  # standalone positioning
             dts[i] -= eph.tgd
 
     if cs is not None:
@@ -734,7 +735,8 @@ def satposs(obs, nav, cs=None, orb=None):
                 nav.dorb[sat] = dorb_
                 nav.dclk[sat] = dclk
 
-            elif nav.smode == 1 and nav.nf == 1:  # stand-alone positioning
+            elif nav.smode == 1 and nav.nf == 1 and \
+                    sys != uGNSS.GLO:  # stand-alone positioning
                 dts[i] -= eph.tgd
 
             nsat += 1
-- 
2.43.0


From 6812e09255140b4b50d2319d63ccb558bb79fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 013/219] fix: week rollover of Yuma almanacs is 1024 weeks

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 0d47439..ff7228f 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -850,9 +850,9 @@ def loadyuma(fname, sys=uGNSS.GPS):
                 alm.af1 = float(v[1])
             elif v[0] == 'week':
                 alm.week = int(v[1])
-                alm.week += week_ref//1023*1023
+                alm.week += week_ref//1024*1024
                 if alm.week > week_ref:
-                    alm.week -= 1023
+                    alm.week -= 1024
 
                 alm.sattype = 0
                 if sys == uGNSS.GPS or sys == uGNSS.QZS:
-- 
2.43.0


From 8faf2ea55e5892356bcfd7d05bed2a150ffa5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 014/219] fix: per-satellite arrays indexed by satellite number
 must hold the last satellite

---
 src/cssrlib/gnss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index f67e1fb..ebde70c 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -926,10 +926,10 @@ class Nav():
         self.rcv_ant_b = None
 
         # SSR correction placeholder
-        self.dorb = np.zeros(uGNSS.MAXSAT)
-        self.dclk = np.zeros(uGNSS.MAXSAT)
-        self.dsis = np.zeros(uGNSS.MAXSAT)
-        self.sis = np.zeros(uGNSS.MAXSAT)
+        self.dorb = np.zeros(uGNSS.MAXSAT+1)
+        self.dclk = np.zeros(uGNSS.MAXSAT+1)
+        self.dsis = np.zeros(uGNSS.MAXSAT+1)
+        self.sis = np.zeros(uGNSS.MAXSAT+1)
 
         # Satellite observation status
         self.fix = np.zeros((uGNSS.MAXSAT, self.nf), dtype=int)
@@ -940,8 +940,8 @@ class Nav():
         self.vsat = np.zeros((uGNSS.MAXSAT, self.nf), dtype=int)
 
         # geometry-free combination for cycle-slip detection
-        self.gf = np.zeros(uGNSS.MAXSAT)
-        self.gf_r = np.zeros(uGNSS.MAXSAT)
+        self.gf = np.zeros(uGNSS.MAXSAT+1)
+        self.gf_r = np.zeros(uGNSS.MAXSAT+1)
 
         self.tt = 0
         self.t = gtime_t()
-- 
2.43.0


From 947c2ccebe81dea63bdfb041ee90f8d8a9a7851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 015/219] fix: satpos() must not raise if the clock correction
 is not received yet

---
 src/cssrlib/ephemeris.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index ff7228f..68145e5 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -395,6 +395,8 @@ def satpos(sat, t, nav, cs=None, orb=None):
                     else:
                         return rs, vs, dts, svh
 
+                if sat not in cs.lc[0].dclk:
+                    return rs, vs, dts, svh
                 dclk = cs.lc[0].dclk[sat]
 
                 if cs.lc[0].cstat & (1 << sCType.HCLOCK) and \
-- 
2.43.0


From 5d68467c6515a5aca164fbd205ef46669bcb06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 016/219] fix: BDS PPP orbit received before the matching clock
 must not raise

---
 src/cssrlib/ephemeris.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 68145e5..7e9c3a7 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -371,9 +371,9 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
 
-                if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
+                if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c.get(sat):
                     dclk = cs.lc[0].dclk[sat]
-                elif cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p[sat]:
+                elif cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p.get(sat):
                     dclk = cs.lc[0].dclk_p[sat]
                 else:
                     return rs, vs, dts, svh
@@ -606,10 +606,10 @@ def satposs(obs, nav, cs=None, orb=None):
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
 
-                    if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
+                    if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c.get(sat):
                         dclk = cs.lc[0].dclk[sat]
                     else:
-                        if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p[sat]:
+                        if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p.get(sat):
                             dclk = cs.lc[0].dclk_p[sat]
                         else:
                             continue
-- 
2.43.0


From a5986c5b56a48c1e6ae78e7fc38869aa1cc0f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 017/219] fix: RINEX obs header with a multiple of 14 or more
 than 26 signal codes

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 332823b..1896755 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -838,7 +838,7 @@ class rnxdec:
                 # Extract string list of signal codes
                 #
                 sigs = line[7:60].split()
-                for _ in range(int(nsig/14)):
+                for _ in range((nsig-1)//13):
                     line2 = self.fobs.readline()
                     sigs += line2[7:60].split()
 
-- 
2.43.0


From b397cef182e75d44dce07af993f250af4b6a50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 018/219] fix: RINEX obs with a different number of selected
 signals per constellation

---
 src/cssrlib/rinex.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 1896755..a1746b0 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -919,16 +919,11 @@ class rnxdec:
                     prn += 100
                 sat = prn2sat(sys, prn)
 
-                pr = np.zeros(len(self.getSignals(sys, uTYP.C)),
-                              dtype=np.float64)
-                cp = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.float64)
-                ll = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.int32)
-                dp = np.zeros(len(self.getSignals(sys, uTYP.D)),
-                              dtype=np.float64)
-                cn = np.zeros(len(self.getSignals(sys, uTYP.S)),
-                              dtype=np.float64)
+                pr = np.zeros(self.nsig[uTYP.C], dtype=np.float64)
+                cp = np.zeros(self.nsig[uTYP.L], dtype=np.float64)
+                ll = np.zeros(self.nsig[uTYP.L], dtype=np.int32)
+                dp = np.zeros(self.nsig[uTYP.D], dtype=np.float64)
+                cn = np.zeros(self.nsig[uTYP.S], dtype=np.float64)
 
                 for i, sig in self.sig_map[sys].items():
 
-- 
2.43.0


From c46a854917f9a4f705ae359b22fba5577213a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 019/219] fix: loss of lock is bit 0 of the RINEX LLI

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index a1746b0..b276e17 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -941,7 +941,7 @@ class rnxdec:
                     # Convert from string to numerical value
                     #
                     val = 0.0 if not sval else float(sval)
-                    lli = 1 if slli == '1' else 0
+                    lli = int(slli) & 1 if slli.isdigit() else 0
 
                     # Signal index in data structure
                     #
-- 
2.43.0


From 4636ddd1fe387014ca828be4db2c1e89b1473d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 020/219] fix: skip RINEX event records instead of decoding
 them as observations

---
 src/cssrlib/rinex.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index b276e17..0707f0a 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -877,6 +877,13 @@ class rnxdec:
 
             nsat = int(line[32:35])
 
+            # Skip event records (special records follow, no observations)
+            #
+            if line[31] in '23456':
+                for _ in range(nsat):
+                    self.fobs.readline()
+                continue
+
             year = int(line[2:6])
             month = int(line[7:9])
             day = int(line[10:12])
-- 
2.43.0


From b67a8288b9d633581f4014090ca9cfc034458016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 021/219] fix: sync_obs() must terminate at the end of file

---
 src/cssrlib/rinex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 0707f0a..5f648ec 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -991,6 +991,9 @@ def sync_obs(dec, decb, dt_th=0.1):
     obs = dec.decode_obs()
     obsb = decb.decode_obs()
     while True:
+        # end of file
+        if obs.t.time == 0 or obsb.t.time == 0:
+            break
         dt = timediff(obs.t, obsb.t)
         if np.abs(dt) <= dt_th:
             break
-- 
2.43.0


From 22f8e260a5bbc8c51612452ffe8e7e46aa42ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 022/219] fix: RINEX nav records with trimmed blank fields

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 5f648ec..1b117d3 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -127,7 +127,7 @@ class rnxdec:
         """ convert string to float """
         if c >= 0:
             u = u[19*c+4:19*(c+1)+4]
-        if u.isspace():
+        if not u or u.isspace():
             return 0.0
         return float(u.replace("D", "E"))
 
-- 
2.43.0


From 033b74e58941680217fc5cadb33cf34d0a1f54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 023/219] fix: RINEX SBAS ephemeris reference time

---
 src/cssrlib/rinex.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 1b117d3..9a44188 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -500,10 +500,16 @@ class rnxdec:
                 vel = np.zeros(3)
                 acc = np.zeros(3)
 
-                seph.toc = self.decode_time(line, 4)
+                seph.t0 = self.decode_time(line, 4)
                 seph.af0 = self.flt(line, 1)
                 seph.af1 = self.flt(line, 2)
-                seph.tot = self.flt(line, 3)
+                week, tow = time2gpst(seph.t0)
+                tot = self.flt(line, 3)
+                if tot-tow > 302400.0:
+                    week -= 1
+                elif tot-tow < -302400.0:
+                    week += 1
+                seph.tof = gpst2time(week, tot)
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
-- 
2.43.0


From a73db91a400375eac2d13f8ee3e0872bf70221bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 024/219] fix: RINEX NavIC group delay, issue and reference
 time

---
 src/cssrlib/rinex.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 9a44188..79f9aa1 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -583,7 +583,8 @@ class rnxdec:
             line = fnav.readline()  # line #3
             if sys == uGNSS.IRN and self.mode_nav == 2:
                 eph.iode = int(self.flt(line, 0))
-                eph.iode = eph.iodc
+                eph.iodc = eph.iode
+                eph.week, eph.toes = time2gpst(eph.toc)
             else:
                 if (sys == uGNSS.GPS or sys == uGNSS.QZS) and \
                         self.mode_nav > 0:  # CNAV, CNAV/2
@@ -639,9 +640,9 @@ class rnxdec:
                     eph.urai = self.flt(line, 0)
                 eph.svh = int(self.flt(line, 1))
                 if self.mode_nav == 2 and eph.integ == 1:
-                    eph.tgd = int(self.flt(line, 3))
+                    eph.tgd = self.flt(line, 3)
                 else:
-                    eph.tgd = int(self.flt(line, 2))
+                    eph.tgd = self.flt(line, 2)
             else:
                 eph.sva = int(self.flt(line, 0))
                 eph.svh = int(self.flt(line, 1))
-- 
2.43.0


From eb15bbeb7b495aa0869b230de7a5ea1be0d0c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 025/219] fix: RINEX GLONASS CDMA ephemeris must not raise

---
 src/cssrlib/rinex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 79f9aa1..15a2eed 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -469,14 +469,14 @@ class rnxdec:
 
                         line = fnav.readline()  # line #7
                         geph.wmax = self.flt(line, 0)
-                        geph.dpoc[0] = self.flt(line, 1)
-                        geph.dpoc[1] = self.flt(line, 2)
-                        geph.dpoc[2] = self.flt(line, 3)
+                        geph.dpos[0] = self.flt(line, 1)
+                        geph.dpos[1] = self.flt(line, 2)
+                        geph.dpos[2] = self.flt(line, 3)
 
                         line = fnav.readline()  # line #8
                         geph.urai[0] = int(self.flt(line, 0))
                         geph.urai[1] = int(self.flt(line, 1))
-                        tot = self.flt(line, 2)
+                        t0 = self.flt(line, 2)
 
                 tod = t0 % 86400.0
                 tof = gpst2time(week, tod + dow*86400.0)
-- 
2.43.0


From c4486398805bc184f4ce864c2b8db1da43ed868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 026/219] fix: sign of the RINEX GLONASS L1/L2 delay, status
 and accuracy lost on re-encoding

---
 src/cssrlib/rinex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 15a2eed..a085a19 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -445,8 +445,10 @@ class rnxdec:
                     if self.mode_nav == 0:  # FDMA
                         # b7-8: M, b6: P4, b5: P3, b4: P2, b2-3: P1, b0-1: P
                         geph.status = int(self.flt(line, 0))
-                        geph.dtaun = -self.flt(line, 1)
+                        geph.flag = geph.status
+                        geph.dtaun = self.flt(line, 1)
                         geph.urai[0] = int(self.flt(line, 2))
+                        geph.sva = geph.urai[0]
                         if len(line) >= 80:
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
-- 
2.43.0


From 4f50d736ce59afab3ecff4de58bd8fc210fd312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 027/219] fix: RINEX L2P data flag was not read

---
 src/cssrlib/rinex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index a085a19..de73bc2 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -610,6 +610,8 @@ class rnxdec:
             if sys == uGNSS.GAL or self.mode_nav == 0:
                 eph.code = int(self.flt(line, 1))  # source for GAL
                 eph.week = int(self.flt(line, 2))
+                if sys in (uGNSS.GPS, uGNSS.QZS):
+                    eph.l2p = int(self.flt(line, 3))
 
                 if sys == uGNSS.GAL and self.ver < 4.0:
                     eph.mode = 1 if eph.code & 0x2 else 0
-- 
2.43.0


From 73ed2375d859377353f328e8a159301a428104c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 028/219] fix: RINEX encoder dropped new ephemerides reusing an
 issue of data

---
 src/cssrlib/rinex.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index de73bc2..3763223 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1205,11 +1205,11 @@ class rnxenc:
         """ write RINEX navigation message to file """
         if eph.sat in self.rec_eph.keys():
             if eph.mode in self.rec_eph[eph.sat].keys() and \
-                    self.rec_eph[eph.sat][eph.mode][0] == eph.iode:
+                    self.rec_eph[eph.sat][eph.mode] == [eph.iode, eph.toe.time]:
                 return
         else:
             self.rec_eph[eph.sat] = {}
-        self.rec_eph[eph.sat][eph.mode] = [eph.iode, eph.toes]
+        self.rec_eph[eph.sat][eph.mode] = [eph.iode, eph.toe.time]
 
         id_ = sat2id(eph.sat)
         sys, prn = sat2prn(eph.sat)
@@ -1386,11 +1386,11 @@ class rnxenc:
         """ write RINEX navigation message for GLONASS to file """
         if geph.sat in self.rec_eph.keys():
             if geph.mode in self.rec_eph[geph.sat].keys() and \
-                    self.rec_eph[geph.sat][geph.mode][0] == geph.iode:
+                    self.rec_eph[geph.sat][geph.mode] == [geph.iode, geph.toe.time]:
                 return
         else:
             self.rec_eph[geph.sat] = {}
-        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toes]
+        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toe.time]
 
         id_ = sat2id(geph.sat)
         sys, prn = sat2prn(geph.sat)
@@ -1458,11 +1458,11 @@ class rnxenc:
         """ write RINEX navigation message for SBAS to file """
         if seph.sat in self.rec_eph.keys():
             if seph.mode in self.rec_eph[seph.sat].keys() and \
-                    self.rec_eph[seph.sat][seph.mode][0] == seph.iodn:
+                    self.rec_eph[seph.sat][seph.mode] == [seph.iodn, seph.t0.time]:
                 return
         else:
             self.rec_eph[seph.sat] = {}
-        self.rec_eph[seph.sat][seph.mode] = [seph.iodn]
+        self.rec_eph[seph.sat][seph.mode] = [seph.iodn, seph.t0.time]
 
         id_ = sat2id(seph.sat)
         sys, prn = sat2prn(seph.sat)
-- 
2.43.0


From e9a46910707973e2f8decbe65eae3ec0e8669947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 029/219] fix: continuation lines of the RINEX obs header
 written for more than 13 signals

---
 src/cssrlib/rinex.py | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 3763223..946c1d2 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1114,37 +1114,22 @@ class rnxenc:
 
             fh.write("{:1s}  {:3d}".format(sys_t[sys], nsig))
 
-            n = 0
+            sigs = []
             for k, _ in enumerate(pr):
-                fh.write(" {:3s}".format(pr[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
-                fh.write(" {:3s}".format(cp[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
+                sigs.append(pr[k].str())
+                sigs.append(cp[k].str())
                 if uTYP.D in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(dp[k].str()))
-                    n += 1
-                    if n == 13:
-                        fh.write("  {:20s}\n{:6s}".format(
-                            "SYS / # / OBS TYPES", ""))
-
+                    sigs.append(dp[k].str())
                 if uTYP.S in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(cn[k].str()))
-                    n += 1
-
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-                elif n >= nsig-1:
-                    fh.write("  {:s}".format("    "*(13-(nsig % 13))))
-                    fh.write("{:20s}".format("SYS / # / OBS TYPES \n"))
+                    sigs.append(cn[k].str())
+
+            # 13 signal codes per line
+            for n in range(0, len(sigs), 13):
+                if n > 0:
+                    fh.write("{:6s}".format(""))
+                fh.write("{:52s}  {:20s}\n".format(
+                    "".join(" {:3s}".format(v) for v in sigs[n:n+13]),
+                    "SYS / # / OBS TYPES"))
 
         # TBD
         ep = time2epoch(ts)
-- 
2.43.0


From d5e6dc9d902793e6de2960bee305297769b1bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 030/219] fix: blank health flags of a RINEX GLONASS record

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 946c1d2..bcced61 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -449,7 +449,7 @@ class rnxdec:
                         geph.dtaun = self.flt(line, 1)
                         geph.urai[0] = int(self.flt(line, 2))
                         geph.sva = geph.urai[0]
-                        if len(line) >= 80:
+                        if line[61:80].strip():
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
                         sattype = int(self.flt(line, 0))
-- 
2.43.0


From d57847cf2f1ff1c98c994563b7821f90d51428e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 031/219] fix: time system and week of the transmission time
 written by the RINEX encoder

---
 src/cssrlib/rinex.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index bcced61..69e4358 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1201,10 +1201,17 @@ class rnxenc:
 
         if sys == uGNSS.BDS:
             ep = time2epoch(gpst2bdt(eph.toc))
-            week, tot_ = time2bdt(eph.tot)
+            week, tot_ = time2bdt(gpst2bdt(eph.tot))
+            wref, _ = time2bdt(gpst2bdt(eph.toc))
         else:
             ep = time2epoch(eph.toc)
             week, tot_ = time2gpst(eph.tot)
+            wref, _ = time2gpst(eph.toc)
+
+        # transmission time refers to the reported week
+        if eph.mode == 0 or sys == uGNSS.GAL:
+            wref = eph.week
+        tot_ += (week-wref)*604800.0
 
         if sys == uGNSS.BDS:
             if eph.mode == 0:  # D1/D2
@@ -1384,7 +1391,7 @@ class rnxenc:
             return
 
         ep = time2epoch(gpst2utc(geph.toe))
-        week, tot_ = time2gpst(geph.tof)
+        week, tot_ = time2gpst(gpst2utc(geph.tof))
 
         if geph.mode == 0:
             lbl = "FDMA"
-- 
2.43.0


From 9aaae996cca63bd4c17b00b5cfae2d69383e76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 032/219] fix: RINEX B-CNAV3 group delay is the one used for
 B2b

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 69e4358..a924a7d 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -735,7 +735,7 @@ class rnxdec:
                 if self.mode_nav < 3:  # CNAV-1,2
                     eph.iodc = int(self.flt(line, 3))
                 else:  # CNAV-3
-                    eph.tgd_b = float(self.flt(line, 3))  # tgd_B2bI
+                    eph.tgd = float(self.flt(line, 3))  # tgd_B2bI
 
                 line = fnav.readline()  # line #9
                 tot = self.flt(line, 0)
-- 
2.43.0


From 7c1726a4d74ff9631c3d62c205a5b7b674dc9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 033/219] fix: Galileo I/NAV group delay belongs to (E1,E5b) in
 all decoders

---
 src/cssrlib/rawnav.py |  5 +++--
 src/cssrlib/rinex.py  |  6 ++++--
 src/cssrlib/rtcm.py   | 10 +++++++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index c4c66e3..b95e825 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -266,8 +266,9 @@ class RawNav():
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
 
-        eph.tgd = bgda*rCST.P2_32    # TGD (E1, E5a)
-        eph.tgd_b = bgdb*rCST.P2_32  # TGD (E1, E5b)
+        # clock of I/NAV is for (E1, E5b)
+        eph.tgd = bgdb*rCST.P2_32    # TGD (E1, E5b)
+        eph.tgd_b = bgda*rCST.P2_32  # TGD (E1, E5a)
 
         # e5b_hs, e1b_hs, e5b_dvs, e1b_dvs
         eph.svh = (e5b_hs << 7) | (e5b_dvs << 6) | (e1b_hs << 1) | (e1b_dvs)
diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index a924a7d..d5caa1c 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1334,11 +1334,13 @@ class rnxenc:
                          format(tot_, float(eph.wn_op), float(eph.integ), ""))
 
         if sys == uGNSS.GAL:  # I/NAV, F/NAV
+            bgd_a, bgd_b = eph.tgd, eph.tgd_b  # (E1,E5a), (E1,E5b)
+            if (eph.code >> 9) & 1:  # clock for (E1,E5b)
+                bgd_a, bgd_b = eph.tgd_b, eph.tgd
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19s}\n".
                      format(eph.idot, float(eph.code), float(eph.week), ""))
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
-                     format(float(eph.sva), float(eph.svh), eph.tgd,
-                            float(eph.tgd_b)))
+                     format(float(eph.sva), float(eph.svh), bgd_a, bgd_b))
             fh.write("    {:19.12E}{:19s}{:19s}{:19s}\n".
                      format(tot_, "", "", ""))
 
diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 65d8739..d752e62 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2716,8 +2716,9 @@ class rtcm(cssr, rtcmUtil):
         eph.omg = omg*rCST.P2_31*rCST.SC2RAD
         eph.OMGd = OMGd*rCST.P2_43*rCST.SC2RAD
         eph.tgd = tgd*rCST.P2_32
-        if self.msgtype == 1046:
-            eph.tgd_b = tgd2*rCST.P2_32
+        if self.msgtype == 1046:  # clock of I/NAV is for (E1, E5b)
+            eph.tgd_b = eph.tgd
+            eph.tgd = tgd2*rCST.P2_32
 
         eph.week = self.adjustweek(eph.week, self.time)
 
@@ -2728,7 +2729,10 @@ class rtcm(cssr, rtcmUtil):
         eph.svh = (hs << 7)+(dvs << 6)
         if self.msgtype == 1046:
             eph.svh |= (hs1 << 1)+(dvs1)
-        eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        if self.msgtype == 1046:
+            eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        else:
+            eph.code = (1 << 1)+(1 << 8)
         eph.iodc = eph.iode
 
         eph.mode = 0 if self.msgtype == 1046 else 1
-- 
2.43.0


From ebe9d6bcc3dc15b32de9273ac93a158fdf695f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 034/219] fix: unit of the standard deviation of interpolated
 precise clocks

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index b588583..c2a4fb9 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -374,7 +374,7 @@ class peph:
         elif c[0] != np.nan and c[1] != np.nan:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1, 3]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             dts[0] = np.nan
 
@@ -419,7 +419,7 @@ class peph:
         elif c[0] != 0.0 and c[1] != 0.0:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             return None, False
 
-- 
2.43.0


From 073f7fa9f81758beec82c287756f3266e878573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 035/219] fix: missing SP3 orbits must not be interpolated

---
 src/cssrlib/peph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index c2a4fb9..6d19594 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -331,7 +331,8 @@ class peph:
 
         for j in range(NMAX+1):
             t[j] = timediff(nav.peph[i+j].time, time)
-            if np.linalg.norm(nav.peph[i+j].pos[sat-1, :]) <= 0.0:
+            # missing orbit is undefined or (0,0,0)
+            if not np.linalg.norm(nav.peph[i+j].pos[sat-1, 0:3]) > 0.0:
                 return None, None, False, False
 
         for j in range(NMAX+1):
-- 
2.43.0


From 82700ed0443814c754b1593cfaed87b3c957ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 036/219] fix: precise orbit at the very end of the interval
 must not raise

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 6d19594..21cf686 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -455,7 +455,7 @@ class peph:
         #
         time_tt = timeadd(time, tt)
         rst, dtst, _, _ = self.pephpos(time_tt, sat, nav)
-        if rss is None:
+        if rst is None:
             return None, None, False
 
         # Get clock offset from Clock-RINEX
-- 
2.43.0


From 11e4efc1de98f036947d796152d67ac56ea2362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 037/219] fix: SP3 epoch without data must not be counted

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 21cf686..4788279 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -141,7 +141,6 @@ class peph:
                 if self.status == 10:  # body
                     if line[0:2] == '* ':  # epoch header
                         v = False
-                        nav.ne += 1
                         self.cnt = 0
                         peph = peph_t(str2time(line, 3, 27))
                         # ep = time2epoch(peph.time)
@@ -199,6 +198,7 @@ class peph:
                                         else:
                                             peph.vst[sat_-1, j] = v*1e-4
                     if v:
+                        nav.ne += 1
                         nav.peph.append(peph)
 
         return nav
-- 
2.43.0


From 26cd2744721f05745a635eed1b46ebe58afda3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 038/219] fix: accuracy exponents of the SP3 header assigned to
 the wrong satellite

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 4788279..35fda08 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -53,7 +53,7 @@ class peph:
         self.nmax = 24*12
 
     def parse_satlist(self, line):
-        n = len(line[9:60].strip())//3
+        n = len(line[9:60].rstrip())//3
         for k in range(n):
             svid = line[9+3*k:12+3*k]
             if int(svid[1:]) > 0:
@@ -61,7 +61,7 @@ class peph:
                 self.cnt += 1
 
     def parse_acclist(self, line):
-        n = len(line[9:60].strip())//3
+        n = len(line[9:60].rstrip())//3
         for k in range(n):
             acc = int(line[9+3*k:12+3*k])
             if self.cnt < self.nsat:
-- 
2.43.0


From 89db5923010b2d240ef46502898672b030dbb0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 039/219] fix: SP3 records of unknown satellites written to
 another satellite

---
 src/cssrlib/peph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 35fda08..678d65c 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -155,6 +155,8 @@ class peph:
 
                             svid = line[1:4]
                             sat_ = id2sat(svid)
+                            if sat_ <= 0:  # unknown satellite
+                                continue
 
                             # clk_ev   = line[74] # clock event flag
                             # clk_pred = line[75] # clock pred. flag
-- 
2.43.0


From ce5ad56be2c22b59b502e9b0c8ed795d2d71be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 040/219] fix: reading a second Clock-RINEX file must not raise

---
 src/cssrlib/rinex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index d5caa1c..e6cf47f 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -764,6 +764,7 @@ class rnxdec:
         offs = None
 
         nav.pclk = []
+        nav.nc = 0
         fnav = open(clkfile, 'rt')
 
         # Read header section
-- 
2.43.0


From ab27fc1a3d2a9cb4c3bb380a3394a9bc0bfa76ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 041/219] fix: satellite antenna correction of a signal missing
 in the ANTEX file must not raise, nadir/zenith direction

---
 src/cssrlib/peph.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 678d65c..202026f 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -803,7 +803,7 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
 
     # Zenith angle and zenith angle grid
     #
-    za = np.rad2deg(np.arccos(np.dot(ez, -e)))
+    za = np.rad2deg(np.arccos(np.clip(np.dot(ez, -e), -1.0, 1.0)))
     za_t = np.arange(ant.zen[0], ant.zen[1]+ant.zen[2], ant.zen[2])
 
     # CoM offset of reference signals
@@ -832,7 +832,7 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
                 off0 += fac0_*ant.off[sig]
             else:
                 print(f"sig={sig} not in antenna database.")
-                off0 = np.ones((1,3))*np.nan
+                off0 = np.ones(3)*np.nan
 
     # Interpolate PCV and map PCO on line-of-sight vector
     #
@@ -843,19 +843,19 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
         #
         sig = substSigTx(ant, sig_)
 
-        # Satellite PCO in local antenna frame
-        #
-        off = ant.off[sig] - off0
-
-        # Convert satellite PCO from antenna frame into ECEF frame
-        #
-        pco_v = off@A
-
         # Interpolate PCV and map PCO on line-of-sight vector
         #
         if sig not in ant.off or sig not in ant.var:
             dant[i] = None
         else:
+            # Satellite PCO in local antenna frame
+            #
+            off = ant.off[sig] - off0
+
+            # Convert satellite PCO from antenna frame into ECEF frame
+            #
+            pco_v = off@A
+
             pcv = np.interp(za, za_t, ant.var[sig])
             pco = -np.dot(pco_v, -e)
             dant[i] = (pco+pcv)*1e-3
@@ -903,7 +903,7 @@ def antModelRx(nav, pos, e, sigs, rtype=1):
 
     # Elevation angle, zenith angle and zenith angle grid
     #
-    za = np.rad2deg(np.arccos(e[2]))
+    za = np.rad2deg(np.arccos(np.clip(e[2], -1.0, 1.0)))
     za_t = np.arange(ant.zen[0], ant.zen[1]+ant.zen[2], ant.zen[2])
 
     # Loop over signals
-- 
2.43.0


From 99422642386662fcc6bdde7d2b0bf43d86d0e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 042/219] fix: retrieval of differential signal biases

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 202026f..218f0b4 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1281,7 +1281,7 @@ class biasdec():
                     timediff(time, dcb.ted) < 0.0:
                 bias = dcb.bias
                 std = dcb.std
-                bcode = dcb.code1
+                bcode = dcb.sig1
                 break
 
         return bias, std, bcode
@@ -1343,7 +1343,7 @@ class biasdec():
 
                     # Skip GLONASS biases if site ID does not match
                     #
-                    if sys == 'R' and not site == siteID:
+                    if sys == uGNSS.GLO and not site == siteID:
                         continue
 
                     sig1 = rSigRnx(sys, line[25:28])
-- 
2.43.0


From 984b569dd328306d69bfd3e3adfe54ad83838a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 043/219] fix: Bias-SINEX record with open start time was never
 valid

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 218f0b4..efa219e 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1354,7 +1354,7 @@ class biasdec():
                         line[40:43]), int(line[44:49])]
                     ep2 = [int(line[50:54]), int(
                         line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
+                    tst = self.doy2time(ep1) if any(ep1) else gtime_t()
                     ted = self.doy2time(ep2)
                     unit = line[65:69]
 
@@ -1404,7 +1404,7 @@ class biasdec():
                         line[40:43]), int(line[44:49])]
                     ep2 = [int(line[50:54]), int(
                         line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
+                    tst = self.doy2time(ep1) if any(ep1) else gtime_t()
                     ted = self.doy2time(ep2)
                     unit = line[65:69]
                     # if (type1 == 0 and unit[0:2] != 'ns') or (type1 == 1 and unit[0:3] != 'cyc'):
-- 
2.43.0


From f374f1d4cb7010ddde8051c0c211c36e28b55baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 044/219] fix: Sun and Moon position of the PPP module was
 rotated to a UTC epoch used as GPST

---
 src/cssrlib/ppp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ppp.py b/src/cssrlib/ppp.py
index 35ee99e..83ba9bb 100644
--- a/src/cssrlib/ppp.py
+++ b/src/cssrlib/ppp.py
@@ -3,6 +3,7 @@ module for PPP processing
 """
 from cssrlib.gnss import rCST, epoch2time, time2epoch, timeadd
 from cssrlib.gnss import timediff, vnorm, ecef2pos, xyz2enu, enu2xyz, gpst2utc
+from cssrlib.gnss import utc2gpst
 from cssrlib.gnss import ecef2enu, Nav, prn2sat, pos2ecef, uGNSS
 from math import sin, cos, atan2, asin
 import numpy as np
@@ -258,7 +259,7 @@ def sunmoonpos(tutc, erpv=np.zeros(5)):
     rmoon_eci = rm*np.array([c_p*c_l, c_e*c_p*s_l-s_e*s_p,
                              s_e*c_p*s_l+c_e*s_p])
 
-    U, gmst = eci2ecef(tutc, erpv)
+    U, gmst = eci2ecef(utc2gpst(tutc), erpv)
     rsun = U@rsun_eci
     rmoon = U@rmoon_eci
 
-- 
2.43.0


From 5e3045c5348226ce08b1b372157f41d7d9d79db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 045/219] fix: precession was applied twice to the Sun and Moon
 positions

---
 src/cssrlib/peph.py | 6 ++++--
 src/cssrlib/ppp.py  | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index efa219e..64a4163 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1209,14 +1209,16 @@ def sunmoonpos_eci(tut, rsun=False, rmoon=False):
     sine, cose = sin(eps*rCST.D2R), cos(eps*rCST.D2R)
     if rsun:
         Ms = 357.5277233+35999.05034*t
-        ls = 280.460+36000.770*t+1.914666471 * \
+        # mean longitudes refer to the equinox J2000 since eci2ecef()
+        # includes the precession
+        ls = 280.460+35999.373*t+1.914666471 * \
             sin(Ms*rCST.D2R)+0.019994643*sin(2.0*Ms*rCST.D2R)
         rs = rCST.AU*(1.000140612-0.016708617*cos(Ms*rCST.D2R) -
                       0.000139589*cos(2.0*Ms*rCST.D2R))
         sinl, cosl = sin(ls*rCST.D2R), cos(ls*rCST.D2R)
         rsun = rs*np.array([cosl, cose*sinl, sine*sinl])
     if rmoon:
-        lm = 218.32+481267.883*t+6.29*sin(f[0])-1.27*sin(f[0]-2.0*f[3]) \
+        lm = 218.32+481266.486*t+6.29*sin(f[0])-1.27*sin(f[0]-2.0*f[3]) \
             + 0.66*sin(2.0*f[3])+0.21*sin(2.0*f[0]) - \
             0.19*sin(f[1])-0.11*sin(2.0*f[2])
         pm = 5.13*sin(f[2])+0.28*sin(f[0]+f[2])-0.28 * \
diff --git a/src/cssrlib/ppp.py b/src/cssrlib/ppp.py
index 83ba9bb..4e4746b 100644
--- a/src/cssrlib/ppp.py
+++ b/src/cssrlib/ppp.py
@@ -236,8 +236,9 @@ def sunmoonpos(tutc, erpv=np.zeros(5)):
     s_e = sin(eps)
     # Sun position in ECI
     Ms = np.deg2rad(357.5277233+35999.05034*t_)  # Mean anomaly of the sun
-    # Mean longitude of the Sun (Ecliptic coordinate)
-    ls = np.deg2rad(280.460+36000.770*t_+1.914666471*sin(Ms) +
+    # Mean longitude of the Sun (Ecliptic coordinate, equinox J2000 since
+    # eci2ecef() includes the precession)
+    ls = np.deg2rad(280.460+35999.373*t_+1.914666471*sin(Ms) +
                     0.019994643*sin(2.0*Ms))
     # Distance of the Sun from the Earth
     rs = rCST.AU*(1.000140612-0.016708617*cos(Ms)-0.000139589*cos(2.0*Ms))
@@ -245,7 +246,7 @@ def sunmoonpos(tutc, erpv=np.zeros(5)):
     s_l = sin(ls)
     rsun_eci = np.array([rs*c_l, rs*c_e*s_l, rs*s_e*s_l])
 
-    lm = 218.32+481267.883*t_+6.29*sin(f[0])-1.27*sin(f[0]-2.0*f[3]) + \
+    lm = 218.32+481266.486*t_+6.29*sin(f[0])-1.27*sin(f[0]-2.0*f[3]) + \
         0.66*sin(2.0*f[3])+0.21*sin(2.0*f[0])-0.19*sin(f[1])-0.11*sin(2.0*f[2])
     pm = 5.13*sin(f[2])+0.28*sin(f[0]+f[2])-0.28*sin(f[2]-f[0]) - \
         0.17*sin(f[2]-2.0*f[3])
-- 
2.43.0


From 20cb0cf1c2dd44d534b90288c96a02316398d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 046/219] fix: IAU1976 precession coefficient

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 64a4163..9e4200b 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1159,7 +1159,7 @@ def eci2ecef(tutc, erpv):
     t3 = t2*t
     f = ast_args(t)
 
-    ze = (2306.2181*t+0.20188*t2+0.017998*t3)*rCST.AS2R
+    ze = (2306.2181*t+0.30188*t2+0.017998*t3)*rCST.AS2R
     th = (2004.3109*t-0.42665*t2-0.041833*t3)*rCST.AS2R
     z = (2306.2181*t+1.09468*t2+0.018203*t3)*rCST.AS2R
     eps = (84381.448-46.8150*t-0.00059*t2+0.001813*t3)*rCST.AS2R
-- 
2.43.0


From aa0fef6c181784743a31a8ce167d9c3c6d0a3c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 047/219] fix: integer overflow in the ambiguity search for
 large ambiguities

---
 src/cssrlib/mlambda.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/mlambda.py b/src/cssrlib/mlambda.py
index e4a7dbe..9e355e8 100644
--- a/src/cssrlib/mlambda.py
+++ b/src/cssrlib/mlambda.py
@@ -86,8 +86,8 @@ def msearch(L, d, ahat, ncands=2):
 
     dist = np.zeros(n)
     acond = np.zeros(n)
-    zcond = np.zeros(n, dtype=np.int32)
-    step = np.zeros(n, dtype=np.int32)
+    zcond = np.zeros(n, dtype=np.int64)
+    step = np.zeros(n, dtype=np.int64)
     afixed = np.zeros((n, ncands))
     sqnorm = np.zeros(ncands)
 
@@ -159,9 +159,9 @@ def estimILS(L, d, ahat, ncands=2):
     sqnorm = np.zeros(ncands)
 
     acond = np.zeros(n)
-    zcond = np.zeros(n, dtype=np.int32)
+    zcond = np.zeros(n, dtype=np.int64)
     left = np.zeros(n)
-    step = np.zeros(n, dtype=np.int32)
+    step = np.zeros(n, dtype=np.int64)
 
     acond[-1] = ahat[-1]
     zcond[-1] = round(acond[-1])
-- 
2.43.0


From 6092e043376f1d155c41c90441876b6973d906d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 048/219] fix: receiver clock reset discarded the current clock
 estimate

---
 src/cssrlib/pntpos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 6793ae8..2fd20ed 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -565,8 +565,9 @@ class stdpos(pppos):
         if abs(np.mean(v)) > self.nav.th_clk_rst:  # clock bias initialize/reset
             ic = self.ICB()
             idx_ = np.where(v != 0.0)[0]
-            xp[ic] = np.mean(v[idx_])
-            v[idx_] -= xp[ic]
+            dclk = np.mean(v[idx_])
+            xp[ic] += dclk
+            v[idx_] -= dclk
             if self.monlevel > 0:
                 print("{:s} clock reset.".format(time2str(obs.t)))
 
-- 
2.43.0


From 160f4b5c5cb0626bcc8d161ef19efbc8ef06acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 049/219] fix: ionospheric delay of signals other than L1 was
 not scaled by frequency

---
 src/cssrlib/pntpos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 2fd20ed..af99093 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -351,6 +351,8 @@ class stdpos(pppos):
                 lam = np.array([s.wavelength() for s in sigsCP])
 
             if self.nav.rmode == 0:
+                # ionospheric delay model is given for L1
+                iono *= (rCST.FREQ_G1*lam[0]/_c)**2
                 PR = obs.P[i, 0]
                 CP = lam[0]*obs.L[i, 0]
             else:  # iono-free combination
-- 
2.43.0


From b57d5f58ffacaa7a6177ca40c94382d44d481ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 050/219] fix: carrier smoothing continued over cycle slips and
 failed after an invalid first epoch

---
 src/cssrlib/pntpos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index af99093..a795c93 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -187,7 +187,7 @@ class stdpos(pppos):
         """ Hatch filter for carrier smoothing """
 
         if Pm == 0.0 or Lm == 0.0:
-            self.cs_cnt[sat] = 1
+            self.cs_cnt.pop(sat, None)
             return Pm
 
         if sat not in self.cs_cnt or timediff(obs.t, self.cs_t0[sat]) > dt_th:
@@ -298,6 +298,7 @@ class stdpos(pppos):
             # Skip edited observations
             #
             if np.any(self.nav.edt[sat-1, :] > 0):
+                self.cs_cnt.pop(sat, None)  # restart carrier smoothing
                 continue
 
             # Geometric distance corrected for Earth rotation
-- 
2.43.0


From 7fb94f861a8282100ac369b37ddfcaaa3976d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 051/219] fix: position of the RTK base station drifted by the
 tidal displacement every epoch

---
 src/cssrlib/pppssr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4c7bc59..892246f 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -509,7 +509,7 @@ class pppos():
         y = np.zeros((n, nf*2))
         el = np.zeros(n)
         e = np.zeros((n, 3))
-        rr_ = rr.copy()
+        rr_ = np.array(rr, dtype=float)
 
         # Solid Earth tide corrections
         #
@@ -1195,7 +1195,7 @@ class pppos():
             if self.nav.pmode > 0:
                 rr_ += self.nav.x[3:6]*tt
         else:
-            rr_ = rr
+            rr_ = np.array(rr, dtype=float)
 
         # Solid Earth tide corrections
         #
-- 
2.43.0


From fb37156d7f0a4594ec9359bf020d10d0208acd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 052/219] fix: cycle slips detected at RTK base and by the
 geometry-free check did not reset the ambiguities

---
 src/cssrlib/rtk.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtk.py b/src/cssrlib/rtk.py
index 2949f78..e33936c 100644
--- a/src/cssrlib/rtk.py
+++ b/src/cssrlib/rtk.py
@@ -33,8 +33,12 @@ class rtkpos(pppos):
             obsb, None, None, rsb, vsb, dtsb, self.nav.rb, 0)
 
         # Editing observations (base/rover)
+        # note: the rover has been edited already by process()
+        edt_u = self.nav.edt.copy()
+        sat_ed_u = np.array([s for s in obs.sat
+                             if not np.any(edt_u[s-1, :] > 0)], dtype=int)
         sat_ed_r = self.qcedit(obsb, rsb, dtsb, svhb, rr=self.nav.rb)
-        sat_ed_u = self.qcedit(obs, rs, dts, svh)
+        self.nav.edt |= edt_u
 
         # define common satellite between base and rover
         sat_ed = np.intersect1d(sat_ed_u, sat_ed_r, True)
-- 
2.43.0


From e383a9950515a19df0481c8d1cffe89498649c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 053/219] fix: residual of GLONASS ambiguities with different
 wavelengths

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 892246f..ec10639 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -960,7 +960,7 @@ class pppos():
 
                         H[nv, idx_i] = +lami
                         H[nv, idx_j] = -lamj
-                        v[nv] -= lami*(x[idx_i] - x[idx_j])
+                        v[nv] -= lami*x[idx_i] - lamj*x[idx_j]
 
                         # measurement variance
                         Ri[nv] = self.varerr(self.nav, el[i], f)
-- 
2.43.0


From 04701c0ea58522b90e3f3332af3628b9e3332c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 054/219] fix: zenith delay state was mixed up with an
 ambiguity if the ionosphere is not estimated

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index ec10639..789ce1a 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -259,7 +259,7 @@ class pppos():
 
     def IT(self, na):
         """ return index of zenith tropospheric delay estimate """
-        return na-uGNSS.MAXSAT-1
+        return na-self.nav.niono-1
 
     def varerr(self, nav, el, f):
         """ variation of measurement """
-- 
2.43.0


From 23c2033ea9670e00db7c1306e747a23a29160a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 055/219] fix: process noise of the ionosphere states shifted
 if the troposphere is not estimated

---
 src/cssrlib/pppssr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 789ce1a..c9a4902 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -204,10 +204,8 @@ class pppos():
 
         if self.nav.iono_opt == 1:  # iono is estimated
             # Iono delay
-            if self.nav.pmode >= 1:  # kinematic
-                self.nav.q[7:7+uGNSS.MAXSAT] = self.nav.sig_qion**2
-            else:
-                self.nav.q[4:4+uGNSS.MAXSAT] = self.nav.sig_qion**2
+            idx = (3 if self.nav.pmode == 0 else 6)+self.nav.ntrop
+            self.nav.q[idx:idx+uGNSS.MAXSAT] = self.nav.sig_qion**2
 
         # ambiguity
         if self.nav.pmode >= 1:  # kinematic
-- 
2.43.0


From 49840110cdd05abd1889ad63819295b25c43bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 056/219] fix: options of a PPP instance were written to the
 default configuration

---
 src/cssrlib/pppssr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index c9a4902..980e6c5 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -2,6 +2,7 @@
 module for standard PPP positioning
 """
 
+from copy import deepcopy
 import numpy as np
 
 from cssrlib.ephemeris import satposs
@@ -35,8 +36,8 @@ class pppos():
                  config=None):
         """ initialize variables for PPP """
 
-        if config is None:
-            config = default_config
+        # options of this instance must not alter the configuration given
+        config = deepcopy(default_config if config is None else config)
 
         if trop_opt > 0:
             config['nav']['trop_opt'] = trop_opt
-- 
2.43.0


From 7d8bce90c359c201124ba489e21abda1e20186ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 057/219] fix: signal bias of a stale L2P alias was kept in the
 received corrections

---
 src/cssrlib/pppssr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 980e6c5..f3b47a3 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -485,6 +485,7 @@ class pppos():
 
         # work-around for Galileo HAS: L2P -> L2W
         if cs.cssrmode in [sc.GAL_HAS_SIS, sc.GAL_HAS_IDD]:
+            sigc = dict(sigc)  # keep received corrections
             if ctype == uTYP.C and rSigRnx('GC2P') in sigc.keys():
                 sigc[rSigRnx('GC2W')] = sigc[rSigRnx('GC2P')]
             if ctype == uTYP.L and rSigRnx('GL2P') in sigc.keys():
-- 
2.43.0


From cd21c503d48d9ff7239a4e5c52f81080d42fb4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 058/219] fix: RTCM 1020 is sign-magnitude and y/z components
 were copies of x

---
 src/cssrlib/rtcm.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d752e62..d1d4e5d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2603,19 +2603,23 @@ class rtcm(cssr, rtcmUtil):
 
     def decode_glo_eph(self, msg, i):
         """ GLONASS Satellite Ephemeris Message """
+        def sm(u, n):  # sign-magnitude integer
+            v = u & ((1 << (n-1))-1)
+            return -v if u >> (n-1) else v
+
         prn, frq, cn, svh, P1 = bs.unpack_from('u6u5u1u1u2', msg, i)
         i += 15
         tk_h, tk_m, tk_s = bs.unpack_from('u5u6u1', msg, i)
         i += 12
         bn, P2, tb = bs.unpack_from('u1u1u7', msg, i)
         i += 9
-        xd, x, xdd = bs.unpack_from('s24s27s5', msg, i)
+        xd, x, xdd = bs.unpack_from('u24u27u5', msg, i)
         i += 56
-        yd, y, ydd = bs.unpack_from('s24s27s5', msg, i)
+        yd, y, ydd = bs.unpack_from('u24u27u5', msg, i)
         i += 56
-        zd, z, zdd = bs.unpack_from('s24s27s5', msg, i)
+        zd, z, zdd = bs.unpack_from('u24u27u5', msg, i)
         i += 56
-        P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1s11u2u1s22s5', msg, i)
+        P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1u11u2u1u22u5', msg, i)
         i += 42
         En, P4, Ft, Nt, M, ad, Na, tauc, N4, taugps, ln = bs.unpack_from(
             'u5u1u4u11u2u1u11s32u5s22u1', msg, i)
@@ -2628,18 +2632,18 @@ class rtcm(cssr, rtcmUtil):
 
         geph.frq = frq-7
         tk_s *= 30.0
-        geph.vel[0] = xd*rCST.P2_20*1e3
-        geph.pos[0] = x*rCST.P2_11*1e3
-        geph.acc[0] = xdd*rCST.P2_30*1e3
-        geph.vel[1] = xd*rCST.P2_20*1e3
-        geph.pos[1] = x*rCST.P2_11*1e3
-        geph.acc[1] = xdd*rCST.P2_30*1e3
-        geph.vel[2] = xd*rCST.P2_20*1e3
-        geph.pos[2] = x*rCST.P2_11*1e3
-        geph.acc[2] = xdd*rCST.P2_30*1e3
-        geph.gamn = gamn*rCST.P2_40
-        geph.taun = taun*rCST.P2_30
-        geph.dtaun = dtaun*rCST.P2_30
+        geph.vel[0] = sm(xd, 24)*rCST.P2_20*1e3
+        geph.pos[0] = sm(x, 27)*rCST.P2_11*1e3
+        geph.acc[0] = sm(xdd, 5)*rCST.P2_30*1e3
+        geph.vel[1] = sm(yd, 24)*rCST.P2_20*1e3
+        geph.pos[1] = sm(y, 27)*rCST.P2_11*1e3
+        geph.acc[1] = sm(ydd, 5)*rCST.P2_30*1e3
+        geph.vel[2] = sm(zd, 24)*rCST.P2_20*1e3
+        geph.pos[2] = sm(z, 27)*rCST.P2_11*1e3
+        geph.acc[2] = sm(zdd, 5)*rCST.P2_30*1e3
+        geph.gamn = sm(gamn, 11)*rCST.P2_40
+        geph.taun = sm(taun, 22)*rCST.P2_30
+        geph.dtaun = sm(dtaun, 5)*rCST.P2_30
         geph.age = En
 
         geph.sat = prn2sat(uGNSS.GLO, prn)
-- 
2.43.0


From b58f026e93d63091644bea090c7e83f3b6e64431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 059/219] fix: RTCM 1041/1042 clock drift rate was decoded from
 the clock bias

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d1d4e5d..b646a17 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2823,7 +2823,7 @@ class rtcm(cssr, rtcmUtil):
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.iode = aode
         toc *= 8.0
-        eph.af2 = af0*rCST.P2_66
+        eph.af2 = af2*rCST.P2_66
         eph.af1 = af1*rCST.P2_50
         eph.af0 = af0*rCST.P2_33
         eph.iodc = aodc
@@ -2874,7 +2874,7 @@ class rtcm(cssr, rtcmUtil):
         eph.week = week
         eph.af0 = af0*rCST.P2_31
         eph.af1 = af1*rCST.P2_43
-        eph.af2 = af0*rCST.P2_55
+        eph.af2 = af2*rCST.P2_55
         eph.sva = ura
         toc *= 16.0
         eph.tgd = tgd*rCST.P2_31
-- 
2.43.0


From d679611f60f1314e88bcb9429cdca94db13d3c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 060/219] fix: RTCM 1043 decoding failed with AttributeError,
 fields and day adjusted

---
 src/cssrlib/rtcm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index b646a17..4a7af49 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2923,9 +2923,9 @@ class rtcm(cssr, rtcmUtil):
 
         seph = Seph()
         seph.sat = prn2sat(uGNSS.SBS, svid+119)
-        seph.iode = iodn
+        seph.iodn = iodn
         toc *= 16.0
-        seph.ura = ura
+        seph.sva = ura
         seph.pos[0] = x*0.08
         seph.pos[1] = y*0.08
         seph.pos[2] = z*0.4
@@ -2935,11 +2935,15 @@ class rtcm(cssr, rtcmUtil):
         seph.acc[0] = ax*0.0000125
         seph.acc[1] = ay*0.0000125
         seph.acc[2] = az*0.0000625
-        seph.af0 = af0*self.P2_31
-        seph.af1 = af1*self.P2_40
+        seph.af0 = af0*rCST.P2_31
+        seph.af1 = af1*rCST.P2_40
         week, tow = time2gpst(self.time)
         tod = (tow//86400)*86400
         seph.t0 = gpst2time(week, toc+tod)
+        if timediff(seph.t0, self.time) < -43200.0:
+            seph.t0 = timeadd(seph.t0, 86400.0)
+        elif timediff(seph.t0, self.time) > 43200.0:
+            seph.t0 = timeadd(seph.t0, -86400.0)
         seph.mode = 0
 
         return i, seph
-- 
2.43.0


From f66a3be5410cde05cdf47da6c711226e2d4e07b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 061/219] fix: RTCM 1045 E5a health was reported as E5b health

---
 src/cssrlib/rtcm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4a7af49..16e2d7f 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2730,9 +2730,10 @@ class rtcm(cssr, rtcmUtil):
         eph.toc = gpst2time(eph.week, toc)
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
-        eph.svh = (hs << 7)+(dvs << 6)
-        if self.msgtype == 1046:
-            eph.svh |= (hs1 << 1)+(dvs1)
+        if self.msgtype == 1046:  # E5b, E1B
+            eph.svh = (hs << 7)+(dvs << 6)+(hs1 << 1)+dvs1
+        else:  # E5a
+            eph.svh = (hs << 4)+(dvs << 3)
         if self.msgtype == 1046:
             eph.code = (1 << 0)+(1 << 2)+(1 << 9)
         else:
-- 
2.43.0


From fa93dc97524cd2f6e0dbd78f47aae0d288f77e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 062/219] fix: RTCM ephemeris week at week and 1024-week
 rollover

---
 src/cssrlib/rtcm.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 16e2d7f..2faa1e2 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -794,11 +794,17 @@ class rtcmUtil:
             prn += uGNSS.MINPRNSBS-1
         return prn2sat(sys, prn)
 
-    def adjustweek(self, week: int, tref: gtime_t):
+    def adjustweek(self, week: int, tref: gtime_t, tow=None):
         """ adjust week number considering reference time """
         week_, _ = time2gpst(tref)
-        week_ref = (week_//1024)*1024
-        return (week % 1024) + week_ref
+        week += (week_-week+512)//1024*1024
+        if tow is not None:  # time of week may belong to next/previous week
+            dt = timediff(gpst2time(week, tow), tref)
+            if dt < -302400.0:
+                week += 1
+            elif dt >= 302400.0:
+                week -= 1
+        return week
 
     def sys2str(self, sys: uGNSS):
         """ convert system enum to string """
@@ -2591,7 +2597,7 @@ class rtcm(cssr, rtcmUtil):
         eph.flag = flag
         eph.fit = fit
 
-        eph.week = self.adjustweek(eph.week, self.time)
+        eph.week = self.adjustweek(eph.week, self.time, eph.toes)
 
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = gpst2time(eph.week, toc)
@@ -2724,7 +2730,7 @@ class rtcm(cssr, rtcmUtil):
             eph.tgd_b = eph.tgd
             eph.tgd = tgd2*rCST.P2_32
 
-        eph.week = self.adjustweek(eph.week, self.time)
+        eph.week = self.adjustweek(eph.week, self.time, eph.toes)
 
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = gpst2time(eph.week, toc)
@@ -2791,7 +2797,7 @@ class rtcm(cssr, rtcmUtil):
         eph.iodc = iodc
         eph.fit = fit
 
-        eph.week = self.adjustweek(eph.week, self.time)
+        eph.week = self.adjustweek(eph.week, self.time, eph.toes)
 
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = gpst2time(eph.week, toc)
@@ -2898,7 +2904,7 @@ class rtcm(cssr, rtcmUtil):
         eph.OMGd = OMGd*rCST.P2_41*rCST.SC2RAD
         eph.i0 = i0*rCST.P2_31*rCST.SC2RAD
 
-        eph.week = self.adjustweek(eph.week, self.time)
+        eph.week = self.adjustweek(eph.week, self.time, eph.toes)
 
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = gpst2time(eph.week, toc)
-- 
2.43.0


From 5d9cac80400dd44843db4e4bf1882fcd98fee238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 063/219] fix: rough range of MSM1-3 is in units of 2^-10 ms

---
 src/cssrlib/rtcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 2faa1e2..f2f65d0 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2337,8 +2337,7 @@ class rtcm(cssr, rtcmUtil):
         if msm >= 1 and msm <= 3:
             for k in range(self.nsat):
                 v = bs.unpack_from('u10', msg, i)[0]
-                if v != 2**10-1:
-                    r[k] = v*rms
+                r[k] = v*rCST.P2_10*rms
                 i += 10
         else:
             for k in range(self.nsat):
-- 
2.43.0


From 377cd21f3f3ba257c1da3bde8db11ebfb293c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 064/219] fix: MSM: invalid data were output as measurements,
 GLONASS phase of MSM4/6 used channel -7

---
 src/cssrlib/rtcm.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f2f65d0..f5ebd06 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -826,6 +826,7 @@ class rtcm(cssr, rtcmUtil):
         self.sysref = -1
         self.nsig_max = 4
         self.lock = {}
+        self.glo_ch = {}
         self.mask_pbias = False
 
         self.pid = 0  # SSR Provider ID
@@ -2320,7 +2321,7 @@ class rtcm(cssr, rtcmUtil):
             self.sig_n += [sig_n]
             ncell += nsig_
 
-        r = np.zeros(self.nsat)
+        r = np.ones(self.nsat)*np.nan
         pr = np.ones(ncell)*np.nan
         cp = np.ones(ncell)*np.nan
         lock = np.zeros(ncell, dtype=int)
@@ -2328,7 +2329,7 @@ class rtcm(cssr, rtcmUtil):
         cnr = np.zeros(ncell)
         rrf = np.zeros(ncell)
 
-        ex = np.zeros(self.nsat, dtype=int)
+        ex = np.ones(self.nsat, dtype=int)*15
         rr = np.zeros(self.nsat)
 
         rms = rCST.CLIGHT*1e-3
@@ -2350,8 +2351,7 @@ class rtcm(cssr, rtcmUtil):
                     ex[k] = bs.unpack_from('u4', msg, i)[0]
                     i += 4
             for k in range(self.nsat):
-                if r[k] != 0.0:
-                    r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
+                r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
                 i += 10
             if msm == 5 or msm == 7:
                 for k in range(self.nsat):
@@ -2429,10 +2429,10 @@ class rtcm(cssr, rtcmUtil):
             hf_ = np.zeros(self.nsig, dtype=np.int32)
             cn_ = np.zeros(self.nsig, dtype=np.float64)
 
-            fcn = 0
             if sys == uGNSS.GLO:
                 if ex[k] <= 13:
-                    fcn = ex[k]-7
+                    self.glo_ch[sat_] = ex[k]-7
+                fcn = self.glo_ch[sat_] if sat_ in self.glo_ch else np.nan
 
             for j, sig_ in enumerate(self.sig_n[k]):
                 idx = sig.index(sig_)
@@ -2441,8 +2441,10 @@ class rtcm(cssr, rtcmUtil):
                 else:
                     freq = obs.sig[sys][uTYP.C][idx].frequency(fcn)
 
-                pr_[idx] = pr[j+ofst]+r[k]
-                cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
+                if not np.isnan(pr[j+ofst]+r[k]):
+                    pr_[idx] = pr[j+ofst]+r[k]
+                if not np.isnan(cp[j+ofst]+r[k]):
+                    cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
                 cn_[idx] = cnr[j+ofst]
                 ll_[idx] = lock[j+ofst]
                 hf_[idx] = half[j+ofst]
@@ -2636,6 +2638,7 @@ class rtcm(cssr, rtcmUtil):
         geph.acc = np.zeros(3)
 
         geph.frq = frq-7
+        self.glo_ch[prn2sat(uGNSS.GLO, prn)] = geph.frq
         tk_s *= 30.0
         geph.vel[0] = sm(xd, 24)*rCST.P2_20*1e3
         geph.pos[0] = sm(x, 27)*rCST.P2_11*1e3
-- 
2.43.0


From 7a245ac78596cbcfde74c1e0200d3f8f42887732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 065/219] fix: loss of lock was never reported for MSM
 observations

---
 src/cssrlib/rtcm.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f5ebd06..0bca685 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2456,18 +2456,18 @@ class rtcm(cssr, rtcmUtil):
             obs.S[k, :] = cn_
             obs.sat[k] = sat_
 
-            if sat_ in self.lock:
-                for j, ll in enumerate(ll_):
-                    if sig[j] not in self.sig_n:
-                        continue
-                    idx = sig.index(sig[j])
-                    ll_p = self.lock[sat_][j]
-                    if (ll == 0 & ll_p != 0) | ll < ll_p:
+            if sat_ not in self.lock:
+                self.lock[sat_] = {}
+            for sig_ in self.sig_n[k]:
+                idx = sig.index(sig_)
+                ll = ll_[idx]
+                if sig_ in self.lock[sat_]:
+                    ll_p = self.lock[sat_][sig_]
+                    if (ll == 0 and ll_p != 0) or ll < ll_p:
                         obs.lli[k, idx] |= 1
-                    if hf_[j] > 0:
-                        obs.lli[k, idx] |= 3
-
-            self.lock[sat_] = ll_
+                if hf_[idx] > 0:
+                    obs.lli[k, idx] |= 3
+                self.lock[sat_][sig_] = ll
 
         return i, obs
 
-- 
2.43.0


From f95ffa319f708212723b7bfb6affaa25d14746da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 066/219] fix: MSM observations had no epoch

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 0bca685..6634060 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2400,6 +2400,7 @@ class rtcm(cssr, rtcmUtil):
 
         obs = Obs()
         obs.time = self.time
+        obs.t = self.time
 
         obs.P = np.zeros((self.nsat, self.nsig), dtype=np.float64)
         obs.L = np.zeros((self.nsat, self.nsig), dtype=np.float64)
-- 
2.43.0


From 93afd443220aabb584c910ca56e1489c3f768b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 067/219] fix: MSM epochs of GLONASS/BDS next to the week
 rollover were one week off

---
 src/cssrlib/rtcm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 6634060..fc61419 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2282,7 +2282,9 @@ class rtcm(cssr, rtcmUtil):
         else:
             tow = t*1e-3
             time = gpst2time(week, tow)
-        return time, tow
+        # begin and end of week of GLONASS and BDS differ from GPS
+        week_, _ = time2gpst(time)
+        return timeadd(time, (week-week_)*604800.0), tow
 
     def decode_msm(self, msg, i):
         """ decode MSM message """
-- 
2.43.0


From 0e5c89666debb4ceb2ba989c7a269769acbc1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 068/219] fix: skipped or invalid messages were returned
 without the decoder tuple

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index fc61419..22f40c6 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2312,7 +2312,7 @@ class rtcm(cssr, rtcmUtil):
         sz = self.nsat*self.nsig
 
         if sz > 64:
-            return -1
+            return -1, None
         ncell = 0
         self.sig_n = []
         for k in range(self.nsat):
@@ -3996,7 +3996,7 @@ class rtcm(cssr, rtcmUtil):
         self.subtype = subtype
 
         if self.msgtype in self.mt_skip:
-            return i
+            return i, obs, eph, geph, seph
 
         # SSR messages
         if self.msgtype in (1057, 1063, 1240, 1246, 1252, 1258):
-- 
2.43.0


From 4328360a918c95d6d1ec76f1a799f05b14f27557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 069/219] fix: MSM1 has no lock time, GLONASS phase without
 channel number is not available

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 22f40c6..2a404bf 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2446,7 +2446,7 @@ class rtcm(cssr, rtcmUtil):
 
                 if not np.isnan(pr[j+ofst]+r[k]):
                     pr_[idx] = pr[j+ofst]+r[k]
-                if not np.isnan(cp[j+ofst]+r[k]):
+                if not np.isnan((cp[j+ofst]+r[k])*freq):
                     cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
                 cn_[idx] = cnr[j+ofst]
                 ll_[idx] = lock[j+ofst]
@@ -2461,7 +2461,7 @@ class rtcm(cssr, rtcmUtil):
 
             if sat_ not in self.lock:
                 self.lock[sat_] = {}
-            for sig_ in self.sig_n[k]:
+            for sig_ in self.sig_n[k] if msm > 1 else []:
                 idx = sig.index(sig_)
                 ll = ll_[idx]
                 if sig_ in self.lock[sat_]:
-- 
2.43.0


From 122fb499a3506a8c86a0e9c29d073e7c5560eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 070/219] fix: RTCM SSR clock drift terms are in units of 0.001
 mm/s and 0.00002 mm/s2

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 2a404bf..823f65d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1090,8 +1090,8 @@ class rtcm(cssr, rtcmUtil):
         dclk, ddclk, dddclk = bs.unpack_from('s22s21s27', msg, i)
         i += 70
         self.dclk_n[k] = self.sval(dclk, 22, 0.1e-3)
-        self.ddclk_n[k] = self.sval(ddclk, 21, 0.4e-3)
-        self.dddclk_n[k] = self.sval(dddclk, 27, 4e-6)
+        self.ddclk_n[k] = self.sval(ddclk, 21, 1e-6)
+        self.dddclk_n[k] = self.sval(dddclk, 27, 2e-8)
         return i
 
     def decode_hclk_sat(self, msg, i, k, inet=0):
@@ -4638,8 +4638,8 @@ class rtcme(cssre, rtcmUtil):
         dclk = self.ival(self.lc[inet].dclk[sat], 22, 0.1e-3)
 
         if self.lc[inet].ddclk is not None:
-            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 0.4e-3)
-            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 4e-6)
+            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 1e-6)
+            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 2e-8)
         else:
             ddclk, dddclk = 0, 0
 
-- 
2.43.0


From 42ca1ca1d8bfc6026b64127fc36ae2f72ec7991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 071/219] fix: IGS SSR orbit header has the reference datum
 after the solution ID

---
 src/cssrlib/rtcm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 823f65d..c90135f 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1010,13 +1010,18 @@ class rtcm(cssr, rtcmUtil):
             i += 5
             v = {'udi': udi, 'mi': mi}
 
-        if self.subtype in (sCSSR.ORBIT, sCSSR.COMBINED):
+        orb = self.subtype in (sCSSR.ORBIT, sCSSR.COMBINED)
+        if orb and self.msgtype != 4076:
             self.datum = bs.unpack_from('u1', msg, i)[0]
             i += 1
 
         iodssr, pid, sid = bs.unpack_from('u4u16u4', msg, i)
         i += 24
 
+        if orb and self.msgtype == 4076:  # CRS indicator follows solution ID
+            self.datum = bs.unpack_from('u1', msg, i)[0]
+            i += 1
+
         v['iodssr'] = iodssr
         self.pid = pid
         self.sid = sid
-- 
2.43.0


From 456c72b08f7544b4b58bc5bf4ac401e61d753b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 072/219] fix: high-rate clock message without preceding clock
 message failed

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c90135f..647dd32 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1399,6 +1399,7 @@ class rtcm(cssr, rtcmUtil):
         self.iodssr = v['iodssr']
         self.udi[sCType.HCLOCK] = v['udi']
         self.mi = v['mi']
+        self.dclk_n = np.zeros(v['nsat'])
 
         for k in range(v['nsat']):
             i, sat_ = self.decode_sat(msg, i, sys)
-- 
2.43.0


From 26e3605e2c58428b99fc65d50c7828c816812996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 073/219] fix: IGS SSR VTEC message failed with TypeError

---
 src/cssrlib/rtcm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 647dd32..e53e62d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1431,19 +1431,18 @@ class rtcm(cssr, rtcmUtil):
             s = np.zeros((n+1, m+1))
             for j in range(m+1):
                 for l_ in range(j, n+1):
-                    c_ = bs.unpack_from('s16', msg, i)
+                    c_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     c[l_, j] = self.sval(c_, 16, 5e-3)
 
             for j in range(1, m+1):
                 for l_ in range(j, n+1):
-                    s_ = bs.unpack_from('s16', msg, i)
+                    s_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     s[l_, j] = self.sval(s_, 16, 5e-3)
 
         self.iodssr_c[sCType.VTEC] = v['iodssr']
         self.lc[inet].cstat |= (1 << sCType.VTEC)
-        self.lc[inet].t0[sCType.VTEC] = self.time
         self.set_t0(ctype=sCType.VTEC, t=self.time)
 
         return i
-- 
2.43.0


From 72652893905e41dae680f8091c4a8128145b3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 074/219] fix: RTCM/IGS SSR signal biases were stored by name
 and never found by PPP

---
 src/cssrlib/rtcm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e53e62d..a69ca2b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1217,7 +1217,7 @@ class rtcm(cssr, rtcmUtil):
                 sig, cb = bs.unpack_from('u5s14', msg, i)
                 i += 19
 
-                rsig = self.ssig2rsig(sys, uTYP.C, sig).str()
+                rsig = self.ssig2rsig(sys, uTYP.C, sig)
                 self.lc[inet].cbias[sat_][rsig] = self.sval(cb, 14, 0.01)
 
         self.iodssr_c[sCType.CBIAS] = v['iodssr']
@@ -1282,7 +1282,7 @@ class rtcm(cssr, rtcmUtil):
                 sig, si = bs.unpack_from('u5b1', msg, i)
                 i += 6
 
-                rsig = self.ssig2rsig(sys, uTYP.L, sig).str()
+                rsig = self.ssig2rsig(sys, uTYP.L, sig)
                 if self.subtype != sRTCM.SSR_PBIAS:  # IGS-SSR
                     wl = bs.unpack_from('u2', msg, i)[0]
                     i += 2
@@ -1753,7 +1753,8 @@ class rtcm(cssr, rtcmUtil):
                 self.fh.write(" {:s}\t".format(sat2id(sat_)))
                 for sig in self.lc[0].cbias[sat_].keys():
                     self.fh.write("{:s}\t{:5.2f}\t"
-                                  .format(sig, self.lc[0].cbias[sat_][sig]))
+                                  .format(sig.str(),
+                                          self.lc[0].cbias[sat_][sig]))
                 self.fh.write("\n")
 
         if self.subtype in [sCSSR.PBIAS, sCSSR.BIAS, sRTCM.SSR_PBIAS]:
@@ -1780,7 +1781,8 @@ class rtcm(cssr, rtcmUtil):
 
                 for sig in self.lc[inet].pbias[sat_].keys():
                     self.fh.write("{:s}\t{:7.4f}\t{:1d}\t{:2d}\t"
-                                  .format(sig, self.lc[inet].pbias[sat_][sig],
+                                  .format(sig.str(),
+                                          self.lc[inet].pbias[sat_][sig],
                                           self.lc[inet].si[sat_][sig],
                                           self.lc[inet].di[sat_][sig]))
                 self.fh.write("\n")
-- 
2.43.0


From 3f9ef3f86c0c6d857c7da96d20aa0529ee1eaafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 075/219] fix: QZSS SSR signal 2 is L1C(P)

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index a69ca2b..7200370 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -570,7 +570,7 @@ class rtcmUtil:
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
@@ -931,7 +931,7 @@ class rtcm(cssr, rtcmUtil):
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
-- 
2.43.0


From 2831c5c9107b108a14cf5a0044b96e2cd7b77ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 076/219] fix: valid RTCM frames shorter than 6 bytes were
 rejected

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 7200370..bca7b29 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -979,7 +979,7 @@ class rtcm(cssr, rtcmUtil):
     def checksum(self, msg, k, maxlen=0):
         """ check the checksum of the message """
         len_ = st.unpack_from('>H', msg, k+1)[0] & 0x3ff
-        if len_ < 6:
+        if len_ < 2:
             return False
         if maxlen > 0 and k+len_ >= maxlen:
             return False
-- 
2.43.0


From 28f45e5042178f0d72130008bcae5b7c0e3ea3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 077/219] fix: RTCM 1042 Cus is an 18 bit field, all following
 fields were shifted

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index bca7b29..756ce24 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2828,8 +2828,8 @@ class rtcm(cssr, rtcmUtil):
         i += 5+17+11+22+24
         aodc, crs, deln, M0, cuc = bs.unpack_from('u5s18s16s32s18', msg, i)
         i += 5+18+16+32+18
-        e, cus, Asq, toe, cic = bs.unpack_from('u32s16u32u17s18', msg, i)
-        i += 32+16+32+17+18
+        e, cus, Asq, toe, cic = bs.unpack_from('u32s18u32u17s18', msg, i)
+        i += 32+18+32+17+18
         Omg0, cis, i0, crc, omg = bs.unpack_from('s32s18s32s18s32', msg, i)
         i += 32+18+32+18+32
         OMGd, tgd1, tgd2, svh = bs.unpack_from('s24s10s10u1', msg, i)
-- 
2.43.0


From 9db27c16de45d289ec438b5a0e67b8880caf8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 078/219] fix: decoding of RTCM SSR messages failed while
 logging

---
 src/cssrlib/rtcm.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 756ce24..6cffa44 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -395,6 +395,24 @@ class rtcmUtil:
         98: (uGNSS.GAL, sCType.STEC),
         99: (uGNSS.BDS, sCType.STEC),
         100: (uGNSS.QZS, sCType.STEC),
+        1246: (uGNSS.QZS, sCType.ORBIT),
+        1247: (uGNSS.QZS, sCType.CLOCK),
+        1248: (uGNSS.QZS, sCType.CBIAS),
+        1249: (uGNSS.QZS, sCType.OC),
+        1250: (uGNSS.QZS, sCType.URA),
+        1251: (uGNSS.QZS, sCType.HCLOCK),
+        1252: (uGNSS.SBS, sCType.ORBIT),
+        1253: (uGNSS.SBS, sCType.CLOCK),
+        1254: (uGNSS.SBS, sCType.CBIAS),
+        1255: (uGNSS.SBS, sCType.OC),
+        1256: (uGNSS.SBS, sCType.URA),
+        1257: (uGNSS.SBS, sCType.HCLOCK),
+        1258: (uGNSS.BDS, sCType.ORBIT),
+        1259: (uGNSS.BDS, sCType.CLOCK),
+        1260: (uGNSS.BDS, sCType.CBIAS),
+        1261: (uGNSS.BDS, sCType.OC),
+        1262: (uGNSS.BDS, sCType.URA),
+        1263: (uGNSS.BDS, sCType.HCLOCK),
     }
 
     ssrt_t = {
@@ -1567,7 +1585,7 @@ class rtcm(cssr, rtcmUtil):
                 "ddclk [mm/s]", "dddclk [mm/s^2]"))
         self.fh.write("\n")
 
-        for k, sat_ in enumerate(self.lc[0].dclk.keys()):
+        for k, sat_ in enumerate(self.lc[0].dclk or {}):
             sys_, _ = sat2prn(sat_)
             if sys_ != sys:
                 continue
@@ -1774,7 +1792,7 @@ class rtcm(cssr, rtcmUtil):
                     continue
                 self.fh.write(" {:s}\t".format(sat2id(sat_)))
 
-                if self.iyaw:
+                if self.iyaw and sat_ in self.lc[inet].yaw:
                     self.fh.write("{:7.4f}\t{:7.4f}\t"
                                   .format(self.lc[inet].yaw[sat_],
                                           self.lc[inet].dyaw[sat_]))
-- 
2.43.0


From 46fa4d20d62dcc10fe2429a7b82462ad645be408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 079/219] fix: epoch of IGS SSR messages was read from version
 and subtype

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 6cffa44..ac8214b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1556,6 +1556,8 @@ class rtcm(cssr, rtcmUtil):
 
         sys, ssr = self.ssrtype(self.msgtype)
         if ssr > 0 or self.msgtype == 4076:
+            if self.msgtype == 4076:  # version and subtype
+                i += 11
             sz = 20 if self.msgtype == 4076 or sys != uGNSS.GLO else 17
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
-- 
2.43.0


From c899a903223177e567338fc085f261d5ae677191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 080/219] fix: QZSS L1C(P) biases of Compact SSR were stored as
 L1 C/A

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 00800c3..c6f08ae 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -431,7 +431,7 @@ class cssr:
         qzs_tbl = {
             sSigQZS.L1C: uSIG.L1C,
             sSigQZS.L1S: uSIG.L1S,
-            sSigQZS.L1L: uSIG.L1C,
+            sSigQZS.L1L: uSIG.L1L,
             sSigQZS.L1X: uSIG.L1X,
             sSigQZS.L2S: uSIG.L2S,
             sSigQZS.L2L: uSIG.L2L,
-- 
2.43.0


From 9305b25dfa798dd30f3ee907759cd19662fed785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 081/219] fix: Compact SSR bias message without network
 correction was not decodable

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index c6f08ae..601e0f1 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -807,7 +807,7 @@ class cssr:
             self.udi[sCType.PBIAS] = head['udi']
         ki = 0
         for k in range(self.nsat_n):
-            if not self.isset(v['svmaskn'], self.nsat_n, k):
+            if dfm['net'] and not self.isset(v['svmaskn'], self.nsat_n, k):
                 continue
             sat = self.sat_n[k]
             if dfm['cb']:
-- 
2.43.0


From 1409daac033b1ff620aaa6e60f904b751260728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 082/219] fix: logging of a partial combined correction failed

---
 src/cssrlib/cssrlib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 601e0f1..4ff58d0 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1253,7 +1253,9 @@ class cssr:
             self.fh.write(" {:s}\t{:s}\t{:s}\t{:s}\t{:s}\t{:s}\n"
                           .format("SatID", "IODE", "Radial[m]",
                                   "Along[m]", "Cross[m]", "dclk[m]"))
-            for sat_ in self.lc[0].dorb.keys():
+            for sat_ in self.lc[0].dorb or {}:
+                if sat_ not in (self.lc[0].dclk or {}):
+                    continue
                 if np.isnan(self.lc[0].dorb[sat_][0]) or \
                    np.isnan(self.lc[0].dclk[sat_]):
                     continue
-- 
2.43.0


From 4b8a0023163a5985608bebf64159c3086470b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 083/219] fix: STEC residuals of the gridded correction message
 were not usable

---
 src/cssrlib/cssrlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 4ff58d0..eb14943 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -948,10 +948,11 @@ class cssr:
         self.lc[inet].s_sz = {}
         
         for sat in self.lc[inet].sat_n:
-            self.lc[inet].dstec[sat] = {}
+            self.lc[inet].dstec[sat] = np.zeros(ng)
             self.lc[inet].s_sz[sat] = sz
 
         self.lc[inet].flg_trop = 3 if dfm['ttype'] > 0 else 0
+        self.lc[inet].flg_stec |= 1  # stec residual term
 
         for j in range(ng):
             if dfm['ttype'] > 0:
-- 
2.43.0


From 0fa7b86dc65309ff28817f14568747997f9540c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 084/219] fix: L6 frame buffer overflow if first frames of
 sub-frames are lost

---
 src/cssrlib/cssrlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index eb14943..36acc78 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1422,6 +1422,10 @@ class cssr:
             print(f"facility changed: {facility_p} -> {facility}")
             return -1
 
+        if self.fcnt >= 5:  # first frame of the next sub-frame was lost
+            self.fcnt = -1
+            return -1
+
         copy_buff(msg, self.buff, i, 1695*self.fcnt, 1695)
         self.fcnt = self.fcnt + 1
 
-- 
2.43.0


From d27f79ca406c5a5fc305dd4c86e0b37fd9ec671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 085/219] fix: CLAS corrections could not be interpolated
 within 5 km of a grid point

---
 src/cssrlib/cssrlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 36acc78..efeaa05 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1312,8 +1312,8 @@ class cssr:
         self.inet_ref = self.grid[idx]['nid']
         if r[idx] < self.rngmin:
             self.ngrid = 1
-            self.grid_index = self.grid['gid'][idx]
-            self.grid_weight = [1]
+            self.grid_index = np.array([self.grid['gid'][idx]])
+            self.grid_weight = np.array([1.0])
         else:
             idn = self.grid['nid'] == self.inet_ref
             rn = r[idn]
-- 
2.43.0


From 557621925c74e44c875be6f87781f7e664ffce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 086/219] fix: offset of the CLAS wet delay was ignored without
 functional term

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index efeaa05..6ee7703 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1359,7 +1359,7 @@ class cssr:
         inet = self.inet_ref
         trph = 0
         trpw = 0
-        if self.lc[inet].flg_trop & 2:
+        if self.lc[inet].flg_trop > 0:  # offset of residual is in ct as well
             p = [1, dlat, dlon, dlat*dlon]
             trph = self.lc[inet].ct[0, :]@p
             trpw = self.lc[inet].ct[1, :]@p
-- 
2.43.0


From 745f8dfd308ab87b4a96131acc2c96c4fe2f4024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 087/219] fix: HAS clock subset block was not decodable

---
 src/cssrlib/cssr_has.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index e9577f4..b3cb18d 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -9,7 +9,7 @@ Galileo HAS correction data decoder
 import numpy as np
 import bitstruct as bs
 import galois
-from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE
+from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, sCType
 from cssrlib.gnss import gpst2time
 from binascii import unhexlify
 
@@ -41,20 +41,32 @@ class cssr_has(cssr):
         if self.iodssr != head['iodssr']:
             return -1
 
+        self.udi[sCType.CLOCK] = head['udi']
+        if self.lc[0].dclk is None:
+            self.lc[0].dclk = {}
+
         nclk_sub = bs.unpack_from('u4', msg, i)[0]
         i += 4
         for j in range(nclk_sub):
             gnss, dcm = bs.unpack_from('u4u2', msg, i)
             i += 6
-            idx_s = np.where(np.array(self.gnss_n) == gnss)
-            mask_s = bs.unpack_from('u'+str(self.nsat_g[gnss]), msg, i)[0]
-            i += self.nsat_g[gnss]
-            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss])
+            sat_g = [sat for sat, g in zip(self.sat_n, self.gnss_n)
+                     if g == gnss]
+            mask_s = bs.unpack_from('u'+str(len(sat_g)), msg, i)[0]
+            i += len(sat_g)
+            idx, nclk = self.decode_mask(mask_s, len(sat_g), 0)
             for k in range(nclk):
-                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i) \
-                    * self.dclk_scl*(dcm+1)
-                self.lc[0].dclk[idx_s[idx[k]]] = dclk
+                sat = sat_g[idx[k]]
+                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i)[0]
+                self.lc[0].dclk[sat] = self.sval(
+                    dclk, self.dclk_blen, self.dclk_scl)*(dcm+1)
                 i += self.dclk_blen
+                self.set_t0(0, sat, sCType.CLOCK, self.time)
+
+        self.sat_n_p = self.sat_n
+        self.iodssr_c[sCType.CLOCK] = head['iodssr']
+        self.lc[0].cstat |= (1 << sCType.CLOCK)
+
         return i
 
     def decode_head(self, msg, i, st=-1):
@@ -117,6 +129,8 @@ class cssr_has(cssr):
             if self.monlevel > 0 and self.fh is not None:
                 self.out_log()
         if (flags >> 2) & 1:  # clock subset block
+            self.mask_id_clk = mask_id
+            self.subtype = sCSSR.CLOCK
             i = self.decode_cssr_clk_sub(msg, i)
         if (flags >> 1) & 1:  # code bias block
             self.subtype = sCSSR.CBIAS
-- 
2.43.0


From 9ffcf7975d96ccbd947a913bef2ad70d3722e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 088/219] fix: HAS corrections were decoded with the mask of
 another mask ID

---
 src/cssrlib/cssr_has.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index b3cb18d..42251f3 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -98,7 +98,7 @@ class cssr_has(cssr):
         # time of hour
         # flags: mask,orbit,clock,clock subset,cbias,pbias,mask_id,iodset_id
         try:
-            self.toh, flags, res, mask_id, self.iodssr = \
+            toh, flags, res, mask_id, iodssr = \
                 bs.unpack_from('u12u6u4u5u5', msg, i)
         except:
             print(f"invalid content={self.msgtype}")
@@ -107,12 +107,18 @@ class cssr_has(cssr):
 
         if self.monlevel > 0 and self.fh is not None:
             self.fh.write("##### Galileo HAS SSR: TOH{:6d} flags={:12s} mask_id={:2d} iod_s={:1d}\n"
-                          .format(self.toh, bin(flags), mask_id, self.iodssr))
+                          .format(toh, bin(flags), mask_id, iodssr))
 
-        if self.toh >= 3600:
-            print(f"invalid TOH={self.toh}")
+        if toh >= 3600:
+            print(f"invalid TOH={toh}")
             return False
 
+        # corrections refer to the satellite mask given by mask_id
+        if not (flags >> 5) & 1 and mask_id != self.mask_id:
+            return False
+
+        self.toh, self.iodssr = toh, iodssr
+
         if (flags >> 5) & 1:  # mask block
             self.mask_id = mask_id
             self.subtype = sCSSR.MASK
-- 
2.43.0


From 409767c7841fe0190473d4ab14f110f7e705b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 089/219] fix: HAS phase biases in cycles were used as meters

---
 src/cssrlib/cssr_has.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 42251f3..9b9c14d 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -35,6 +35,12 @@ class cssr_has(cssr):
         y = np.nan if u == invalid or u == dnu else u*scl
         return y
 
+    def decode_pbias_sat(self, msg, i, sat, rsig, inet=0):
+        """ decoder phase bias correction of HAS [cycles] -> [m] """
+        i = super().decode_pbias_sat(msg, i, sat, rsig, inet)
+        self.lc[inet].pbias[sat][rsig] *= rsig.wavelength()
+        return i
+
     def decode_cssr_clk_sub(self, msg, i=0):
         head, i = self.decode_head(msg, i)
         self.flg_net = False
-- 
2.43.0


From 3bb78b4dfb7cbf4606f0baaf4f28b98d3800b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 090/219] fix: HAS page recovery failed if more than 32 pages
 were collected

---
 src/cssrlib/cssr_has.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 9b9c14d..a912e19 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -188,7 +188,8 @@ class cnav_msg():
     def decode_has_page(self, idx, has_pages, gMat, ms):
         """ HPVRS decoding for RS(255,32,224) """
         HASmsg = bytes()
-        k = len(idx)
+        k = min(len(idx), ms)  # pages in excess are not required
+        idx = idx[:k]
         if k >= ms:
             Wd = self.GF(has_pages[idx, :])  # kx53
             Dinv = np.linalg.inv(self.GF(gMat[idx, :k]))  # kxk
-- 
2.43.0


From 258ef08b052a015b94ae469b6889a8323bb7ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 091/219] fix: HAS page collection timed out by the count of
 previous messages

---
 src/cssrlib/cssr_has.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index a912e19..2ce139c 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -226,7 +226,8 @@ class cnav_msg():
             if self.mid_ == -1 and mid not in self.mid_decoded:
                 self.mid_ = mid
                 self.ms_ = ms
-            if mid == self.mid_ and pid-1 not in self.rec:
+                self.icnt = 0
+            if mid == self.mid_ and pid > 0 and pid-1 not in self.rec:
                 page = bs.unpack_from('u8'*53, buff, i)
                 self.rec += [pid-1]
                 self.has_pages[pid-1, :] = page
-- 
2.43.0


From 52262a8b4043a25763af89c31ebfa5bd2e1bf811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 092/219] fix: B2b code biases following a satellite outside
 the mask were garbage

---
 src/cssrlib/cssr_bds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index e64ff58..53d986b 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -250,6 +250,7 @@ class cssr_bds(cssr):
             sys, prn = self.slot2prn(slot)
             sat = prn2sat(sys, prn)
             if sat not in sat_n:
+                i += nsig*(4+self.cb_blen)
                 continue
             if sat not in self.lc[inet].t0:
                 self.lc[inet].t0[sat] = {}
-- 
2.43.0


From fc19d4886075623cd03490162718f8cac160bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 093/219] fix: B2b URA of another mask was assigned to the
 current satellites

---
 src/cssrlib/cssr_bds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 53d986b..65c79af 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -319,6 +319,8 @@ class cssr_bds(cssr):
 
         iodp, st2 = bs.unpack_from('u4u3', msg, i)
         i += 7
+        if iodp != self.iodp:
+            return i+70*6
 
         for k in range(70):
             v = bs.unpack_from_dict('u3u3', ['class', 'val'], msg, i)
-- 
2.43.0


From 104fd584786fc563a12b5a75ef34bf78379c2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 094/219] fix: B2b combined orbit and clock messages were not
 decodable

---
 src/cssrlib/cssr_bds.py | 76 +++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 65c79af..ab1859b 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -337,45 +337,71 @@ class cssr_bds(cssr):
     def decode_cssr_comb1(self, msg, i, inet=0):
         """decode MT6 combined message #1 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr, iodp, slot_s = \
-                bs.unpack_from('u17u4u2u4u9', msg, i)
-            i += 36
-            for k in range(numc):
-                idx = slot_s+k
-                sat = self.sat_n[idx]
-                i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+            head, i = self.decode_head(msg, i)
+            iodp, slot_s = bs.unpack_from('u4u9', msg, i)
+            i += 13
+            if self.iodssr != head['iodssr'] or iodp != self.iodp:
+                i += numc*(3+self.dclk_blen)
+            else:
+                for k in range(numc):
+                    idx = slot_s+k
+                    sat = self.sat_n[idx] if idx < self.nsat_n else 0
+                    i = self.decode_comb_clk_sat(msg, i, inet, sat)
+                self.set_comb_stat(head, sCType.CLOCK, inet)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numo):
-                i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+            i = self.decode_comb_orb(msg, i, inet, numo)
+
+        return i
+
+    def decode_comb_clk_sat(self, msg, i, inet, sat):
+        """ decode clock correction of combined messages """
+        if sat not in self.sat_n:
+            return i+3+self.dclk_blen
+        i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+        if sat not in self.lc[inet].t0:
+            self.lc[inet].t0[sat] = {}
+        self.lc[inet].t0[sat][sCType.CLOCK] = self.time
+        return i
 
+    def decode_comb_orb(self, msg, i, inet, numo):
+        """ decode orbit corrections of combined messages """
+        head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
+        sat_n = np.array(self.sat_n)
+        for k in range(numo):
+            i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+        self.set_comb_stat(head, sCType.ORBIT, inet)
         return i
 
+    def set_comb_stat(self, head, ctype, inet):
+        self.iodssr_c[ctype] = head['iodssr']
+        self.lc[inet].cstat |= (1 << ctype)
+
     def decode_cssr_comb2(self, msg, i, inet=0):
         """decode MT7 combined message #2 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numc):
-                slot = bs.unpack_from('u9', msg, i)
-                i += 9
-                sys, prn = self.slot2prn(slot)
-                sat = prn2sat(sys, prn)
-                i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+            head, i = self.decode_head(msg, i)
+            if self.iodssr != head['iodssr']:
+                i += numc*(9+3+self.dclk_blen)
+            else:
+                for k in range(numc):
+                    slot = bs.unpack_from('u9', msg, i)[0]
+                    i += 9
+                    sys, prn = self.slot2prn(slot)
+                    sat = prn2sat(sys, prn)
+                    i = self.decode_comb_clk_sat(msg, i, inet, sat)
+                self.set_comb_stat(head, sCType.CLOCK, inet)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numo):
-                i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+            i = self.decode_comb_orb(msg, i, inet, numo)
 
         return i
 
-- 
2.43.0


From 18797929177f4e23e54ca669c448e15b682c3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 095/219] fix: SBAS UDREI were read from the wrong place if the
 last block of fast corrections is not full

---
 src/cssrlib/sbas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 625aa4b..d14b3f9 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -439,14 +439,14 @@ class sbasDec(cssr):
             i += 12
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.lc[0].hclk[self.sat[j]] = -self.sval(fc, 12, 0.125)
         for k in range(n):
             udrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.obad.udrei[self.sat[j]] = udrei
             self.set_t0(sat=self.sat[j], ctype=sCType.HCLOCK, t=self.time)
 
-- 
2.43.0


From c48fd13f5dc50a93d03e346c91d0195419e759c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 096/219] fix: SBAS fast corrections were applied with the
 wrong sign

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index d14b3f9..597adf2 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -440,7 +440,7 @@ class sbasDec(cssr):
             j = type_*13+k
             if j >= len(self.sat):
                 continue
-            self.lc[0].hclk[self.sat[j]] = -self.sval(fc, 12, 0.125)
+            self.lc[0].hclk[self.sat[j]] = self.sval(fc, 12, 0.125)
         for k in range(n):
             udrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
-- 
2.43.0


From 1992901ad6094c05ac740ce7cdb3d53c25e9a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 097/219] fix: SBAS MT10: scale of Cltc_v1

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 597adf2..aa8625e 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -541,7 +541,7 @@ class sbasDec(cssr):
         i += 90
 
         self.deg_prm = np.array(
-            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-4, Iltc_v1*1.0,
+            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-5, Iltc_v1*1.0,
              Cltc_v0*2e-3, Iltc_v0*1.0, Cgeo_lsb*5e-4, Cgeo_v*5e-5,
              Igeo*1.0, Cer*0.5, Ciono_s*1e-3, Iiono*1.0,
              Ciono_r*5e-6, RSS_udre, RSS_iono, Ccov*0.1])
-- 
2.43.0


From 957916a0ce700b3b2941021703e4af98a34c6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 098/219] fix: SBAS MT17: time of day was read from the third
 almanac

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index aa8625e..e5e1398 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -561,7 +561,7 @@ class sbasDec(cssr):
     def decode_sbas_almanac(self, msg, i):
         """ Type 17 GEO almanac message """
 
-        ta = bs.unpack_from('u11', msg, 201)[0]*64.0
+        ta = bs.unpack_from('u11', msg, i+201)[0]*64.0
         t0 = tod2tow(ta, self.time)
 
         for k in range(3):
-- 
2.43.0


From 024edabdacee3d1dcd4fec989aa0b30b65ea51d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 099/219] fix: SBAS MT24: the long-term half was decoded 10
 bits early

---
 src/cssrlib/sbas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index e5e1398..deb6b84 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -685,6 +685,7 @@ class sbasDec(cssr):
             return i
 
         i = self.decode_sbas_fast_corr_blk(msg, i, 6, type_)
+        i += 10
         i = self.decode_sbas_lcorr_half(msg, i)  # MT25 half-msg(106bits)
         return i
 
-- 
2.43.0


From 4c56e43e42f9ea05555a66fee620c09cf2cdd0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 100/219] fix: SBAS MT25: second half was misread after a half
 of another mask

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index deb6b84..d8a8350 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -648,7 +648,7 @@ class sbasDec(cssr):
         ofst = 102 if vc == 0 else 103
         iodp = bs.unpack_from('u2', msg, i+ofst)[0]
         if iodp != self.iodp:
-            return i
+            return i+105
 
         if vc == 0:
             for k in range(2):
-- 
2.43.0


From 09f6e650ab3c7899bbf8ce0ea9a126ab6a605275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 101/219] fix: SBAS MT24/25: PRN mask number is the position in
 the mask

---
 src/cssrlib/sbas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index d8a8350..8617b42 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -616,7 +616,9 @@ class sbasDec(cssr):
     def add_sbas_corr(self, slot, iodn, dx, dy, dz, db,
                       dxd=0, dyd=0, dzd=0, dbd=0):
         """ add SBAS long-term correction """
-        sat = self.slot2sat(slot)
+        if slot < 1 or slot > len(self.sat):
+            return 0
+        sat = self.sat[slot-1]
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
-- 
2.43.0


From 60fd53e80c2a3b63e8902d4770c24b8050a4ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 102/219] fix: SBAS MT25: rates refer to the broadcast time of
 applicability

---
 src/cssrlib/sbas.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 8617b42..1dcb458 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -666,10 +666,15 @@ class sbasDec(cssr):
             slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd = bs.unpack_from(
                 'u6u8s11s11s11s11s8s8s8s8', msg, i)
             i += 90
-            self.add_sbas_corr(slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd)
+            sat = self.add_sbas_corr(slot, iodn, dx, dy, dz, db,
+                                     dxd, dyd, dzd, dbd)
 
             toa = bs.unpack_from('u13', msg, i)[0]
             i += 15
+            if sat > 0:
+                t0 = tod2tow(toa*16.0, self.time)
+                self.set_t0(sat=sat, ctype=sCType.CLOCK, t=t0)
+                self.set_t0(sat=sat, ctype=sCType.ORBIT, t=t0)
 
         self.iodssr_c[sCType.CLOCK] = iodp
         self.iodssr_c[sCType.ORBIT] = iodp
-- 
2.43.0


From ecc57fdea0ae6bc65eafaf99a9a50d94889166c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 103/219] fix: SBAS: satellites removed from the mask were
 still used with old corrections

---
 src/cssrlib/sbas.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 1dcb458..84504d7 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -430,6 +430,12 @@ class sbasDec(cssr):
         self.iodp = bs.unpack_from('u2', msg, i)[0]
         self.iodssr = self.iodp
         i += 2
+
+        # corrections of satellites removed from the mask are obsolete
+        self.sat_n = [sat for sat in self.sat_n if sat in self.sat]
+        for sat in list(self.lc[0].hclk):
+            if sat not in self.sat:
+                del self.lc[0].hclk[sat]
         return i
 
     def decode_sbas_fast_corr_blk(self, msg, i, n, type_):
-- 
2.43.0


From 55c536d03277258cb8c091b6ae0607530c7bb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 104/219] fix: SBAS MT27: regions after the first one were
 misread

---
 src/cssrlib/sbas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 84504d7..29a72dc 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -52,7 +52,7 @@ class SBASService():
         self.lon1 = np.zeros(5)
         self.lat2 = np.zeros(5)
         self.lon2 = np.zeros(5)
-        self.shape = 0
+        self.shape = np.zeros(5, dtype=int)
 
 
 class paramOBAD():
@@ -755,15 +755,16 @@ class sbasDec(cssr):
         self.sinfo.dUDRE_out = dudre2
 
         for k in range(5):
-            lat1, lon1, lat2, lon2 = bs.unpack_from('s8s9s8s9', msg, i)
-            i += 34
+            lat1, lon1, lat2, lon2, shape = \
+                bs.unpack_from('s8s9s8s9u1', msg, i)
+            i += 35
             self.sinfo.lat1[k] = lat1
             self.sinfo.lon1[k] = lon1
             self.sinfo.lat2[k] = lat2
             self.sinfo.lon2[k] = lon2
+            self.sinfo.shape[k] = shape
 
-        self.sinfo.shape = bs.unpack_from('u1', msg, i)[0]
-        i += 16
+        i += 15
 
         return i
 
-- 
2.43.0


From 64448d1239054c4b2c0fa2f372bf3e36d95af1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 105/219] fix: SBAS covariance: E24 was replaced by E23

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 29a72dc..91d30fb 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -776,7 +776,7 @@ class sbasDec(cssr):
 
         scl = 2**(scale-5)
         R = np.array([[E11, E12, E13, E14],
-                      [0, E22, E23, E23],
+                      [0, E22, E23, E24],
                       [0,   0, E33, E34],
                       [0,   0,   0, E44]])*scl
         C = R.T@R
-- 
2.43.0


From ca08537871ccc9fc8422cb382b78dc2bfef7795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 106/219] fix: SBAS MT28: covariance was assigned to the next
 satellite of the mask

---
 src/cssrlib/sbas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 91d30fb..5b4fb2c 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -794,7 +794,9 @@ class sbasDec(cssr):
             slot = bs.unpack_from('u6', msg, i)[0]
             i += 6
             i, C, scl = self.decode_cov(msg, i)
-            sat = self.sat[slot]
+            if slot < 1 or slot > len(self.sat):
+                continue
+            sat = self.sat[slot-1]
             self.obad.cov[sat] = C
             self.obad.scl[sat] = scl
 
-- 
2.43.0


From dec836cb8404ffc36676964c7427a0896f48d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 107/219] fix: SBAS: the last 12 grid points of band 9 and 10
 are at 85 degrees

---
 src/cssrlib/sbas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 5b4fb2c..554fe9d 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -351,7 +351,8 @@ class sbasDec(cssr):
             lat0 = 60 if band == 9 else -60
             i0 = 0
             for k in range(5):
-                lat = lat0+k*np.sign(lat0)*5
+                lat = (lat0+k*5 if k < 4 else 85) if lat0 > 0 else \
+                    (lat0-k*5 if k < 4 else -85)
                 if k == 0:
                     n = 72
                     self.igp_t[band][i0:i0+n, 1] = np.arange(-180, 180, 5)
-- 
2.43.0


From 74798f18759bb749ea257a1c32f7872c47cd112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 108/219] fix: SBAS: grid points not to be used were used,
 those with GIVEI 0 were not

---
 src/cssrlib/sbas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 554fe9d..47586a1 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -132,7 +132,7 @@ def searchIGP(t, posp, cs):
             if len(idx) == 0:
                 continue
             k = idx[0]
-            if len(cs.givei[band]) < k or cs.givei[band][k] <= 0:
+            if cs.givei[band][k] >= 15 or np.isnan(cs.vtec[band][k]):
                 continue
             igp[i] = [cs.vtec[band][k], cs.givei[band][k]]
             cs.inet = band+1
@@ -616,7 +616,7 @@ class sbasDec(cssr):
             self.vtec[band] = np.zeros(ngp)
 
         if band not in self.givei:
-            self.givei[band] = np.zeros(ngp, dtype=int)
+            self.givei[band] = np.full(ngp, 15)  # not monitored
 
         return i
 
-- 
2.43.0


From acbabaaf5aab75dcb5106315d634af7339443b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 109/219] fix: SBAS: ionospheric delays of the previous grid
 mask were used with the new one

---
 src/cssrlib/sbas.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 47586a1..bc2fe97 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -271,6 +271,7 @@ class sbasDec(cssr):
 
         # iono
         self.igp_idx = {}
+        self.iodi_b = {}
         self.vtec = {}
         self.givei = {}
         self.t0_igp = gtime_t()
@@ -608,15 +609,15 @@ class sbasDec(cssr):
             if bs.unpack_from('u1', msg, i+k)[0] == 1:
                 idx.append(k)
         i += 201+1
-        self.igp_idx[band] = idx
         self.iodi = iodi
         ngp = len(idx)
 
-        if band not in self.vtec:
+        # grid points of another mask are obsolete
+        if self.iodi_b.get(band) != iodi or self.igp_idx[band] != idx:
             self.vtec[band] = np.zeros(ngp)
-
-        if band not in self.givei:
             self.givei[band] = np.full(ngp, 15)  # not monitored
+        self.igp_idx[band] = idx
+        self.iodi_b[band] = iodi
 
         return i
 
@@ -712,12 +713,9 @@ class sbasDec(cssr):
     def decode_sbas_iono(self, msg, i):
         """ Type 26 Ionospheric delay message """
         iodi = bs.unpack_from('u2', msg, i+203)[0]
-        if iodi != self.iodi:
-            i += 212
-            return i
         band, bid = bs.unpack_from('u4u4', msg, i)
         i += 8
-        if band not in self.vtec:
+        if band not in self.vtec or iodi != self.iodi_b[band]:
             i += 204
             return i
 
-- 
2.43.0


From dc906e2700526fa88eeab36b682fb785aa88ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 110/219] fix: DFMC integrity messages 34-36 crashed or were
 ignored

---
 src/cssrlib/sbas.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index bc2fe97..2d35fac 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -855,7 +855,7 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt34(self, msg, i):
         """ Types 34 integrity message (indexed) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
@@ -875,27 +875,28 @@ class sbasDec(cssr):
             sat = self.sat_n[j]
             if dfreci[j] == 1:
                 if k < 7:
-                    self.dfrei[sat] = dfrei[k]
+                    self.obad.dfrei[sat] = dfrei[k]
                     k += 1
-            elif dfreci[j] == 2:
-                self.dfrei[sat] += 1
-                if self.dfrei[sat] > 14:
-                    self.dfrei[sat] = 14
+            elif dfreci[j] == 2 and sat in self.obad.dfrei:
+                if self.obad.dfrei[sat] < 14:
+                    self.obad.dfrei[sat] += 1
             elif dfreci[j] == 3:  # DNU
-                self.dfrei[sat] = 15
+                self.obad.dfrei[sat] = 15
 
         i += 4
         return i
 
     def decode_dfmc_integrity_mt35(self, msg, i):
         """ Types 35 integrity message (for #1-53) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
         for k in range(53):
-            self.dfrei[k] = bs.unpack_from('u4', msg, i)[0]
+            if k < self.nsat:
+                self.obad.dfrei[self.sat_n[k]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
 
         i += 4
@@ -903,13 +904,15 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt36(self, msg, i):
         """ Types 36 integrity message (for #54-92) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
         for k in range(39):
-            self.dfrei[k+53] = bs.unpack_from('u4', msg, i)[0]
+            if k+53 < self.nsat:
+                self.obad.dfrei[self.sat_n[k+53]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
         i += 60
         return i
-- 
2.43.0


From 2938998ba6d305df3e88978bb627bee9ae06af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 111/219] fix: DFMC ephemeris: satellite number and semi-major
 axis

---
 src/cssrlib/sbas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 2d35fac..9c5bbdc 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -965,7 +965,7 @@ class sbasDec(cssr):
         i += 41
         self.iodg = iodg
 
-        sat = self.slot2sat(slotd)
+        sat = prn2sat(uGNSS.SBS, slotd+119)
         eph = Eph(sat)
         eph.cuc = self.sval(cuc, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.cus = self.sval(cus, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
@@ -995,7 +995,7 @@ class sbasDec(cssr):
         eph = self.Eph
         eph.i0 = i0*rCST.SC2RAD*rCST.P2_33
         eph.e = e*rCST.P2_30
-        eph.a = a*0.02
+        eph.A = a*0.02
 
         eph.toe = tod2tow(te*16.0, self.time)
         eph.toc = eph.toe
-- 
2.43.0


From cd819d55489545e6d4b6ea0a429c21d244552d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 112/219] fix: DFMC almanac: rate of right ascension

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 9c5bbdc..baadd97 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -1031,7 +1031,7 @@ class sbasDec(cssr):
             alm.i0 = i0*rCST.SC2RAD*rCST.P2_13
             alm.omg = omg*rCST.SC2RAD*rCST.P2_13
             alm.OMG0 = OMG0*rCST.SC2RAD*rCST.P2_13
-            alm.OMDd = OMGd*1e-9
+            alm.OMGd = OMGd*1e-9
             alm.M0 = M0*rCST.SC2RAD*rCST.P2_14
             alm.toa = tod2tow(ta*1800.0, self.time)
             self.Alm[sat] = alm
-- 
2.43.0


From e3206240a6532f383b0d485f9805f96a7730e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 113/219] fix: DFMC MT32 of an unassigned slot was stored

---
 src/cssrlib/sbas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index baadd97..8471e58 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -1043,6 +1043,8 @@ class sbasDec(cssr):
     def add_dfmc_corr(self, slot, iodn, dx, dy, dz, db,
                       dxd=0, dyd=0, dzd=0, dbd=0):
         sat = self.slot2sat(slot)
+        if sat == 0:
+            return sat
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
-- 
2.43.0


From 8557a8222db6b27c4784528aa698ea92c31502bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 114/219] fix: PVS rates refer to the broadcast time of
 applicability

---
 src/cssrlib/cssr_pvs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/cssr_pvs.py b/src/cssrlib/cssr_pvs.py
index 2416174..6b2550b 100644
--- a/src/cssrlib/cssr_pvs.py
+++ b/src/cssrlib/cssr_pvs.py
@@ -19,7 +19,8 @@ import numpy as np
 import bitstruct as bs
 from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, prn2sat, sCType
 from cssrlib.cssrlib import sat2id
-from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, timeadd, time2gpst
+from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, timeadd, \
+    time2gpst, tod2tow
 from binascii import unhexlify
 
 
@@ -126,9 +127,8 @@ class cssr_pvs(cssr):
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
-        tow = self.tow0 + t0*16.0
-        self.time = self.adjust_time_week(
-            gpst2time(self.week, tow), self.time0)
+        self.time = tod2tow(t0*16.0, self.time0)
+        _, tow = time2gpst(self.time)
 
         self.lc[0].iode[sat] = iodn
         self.lc[0].dorb[sat] = np.zeros(3)
@@ -146,7 +146,7 @@ class cssr_pvs(cssr):
         self.iodssr = 0
         self.lc[0].cstat |= (1 << sCType.CLOCK) | (1 << sCType.ORBIT)
         self.lc[0].t0[sat] = {
-            sCType.CLOCK: self.time0, sCType.ORBIT: self.time0}
+            sCType.CLOCK: self.time, sCType.ORBIT: self.time}
 
         self.iodssr_c[sCType.CLOCK] = self.iodssr
         self.iodssr_c[sCType.ORBIT] = self.iodssr
-- 
2.43.0


From c94e6b190aa59adce95176e5e17ff610528ddeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 115/219] fix: DFMC ephemeris: longitude of ascending node was
 lost

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 8471e58..a09e1c3 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -971,7 +971,7 @@ class sbasDec(cssr):
         eph.cus = self.sval(cus, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.idot = self.sval(idot, 22, 7/6*rCST.SC2RAD*rCST.P2_21*1e-6)
         eph.omg = self.sval(omg, 34, rCST.SC2RAD*rCST.P2_33)
-        eph.Omg0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
+        eph.OMG0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
         eph.M0 = self.sval(M0, 34, rCST.SC2RAD*rCST.P2_33)
 
         eph.af0 = self.sval(af0, 25, 0.02/rCST.CLIGHT)  # [m] -> [s]
-- 
2.43.0


From 67a0bd0ba2f0d7c29bef1b955fcc942bbfc0f0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 116/219] fix: SBAS ionospheric delay was missing for pierce
 points crossing the date line westwards

---
 src/cssrlib/sbas.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index a09e1c3..4bd14ad 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -88,8 +88,7 @@ def searchIGP(t, posp, cs):
 
     lat, lon = posp[0]*rCST.R2D, posp[1]*rCST.R2D
 
-    if lon >= 180.0:
-        lon -= 360.0
+    lon = (lon+180.0) % 360.0-180.0
 
     if lat >= -55.0 and lat < 55.0:
         latp[0] = lat//5*5
-- 
2.43.0


From 969e9a048b5d8805aab5e60a3fc4e6e9db33a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 117/219] fix: SLAS stations after an empty entry were lost

---
 src/cssrlib/dgps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index e7b9179..4f50aeb 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -138,6 +138,7 @@ class dgpsDec(cssr):
         i = 14
         for k in range(5):
             code, lat, lon, alt = bs.unpack_from('u6s15s15u6', msg, i)
+            i += 42
             if code == 63:
                 continue
             self.posr[code, 0] = lat*0.005
@@ -145,8 +146,6 @@ class dgpsDec(cssr):
             self.posr[code, 2] = alt*50.0-100
 
             self.posr[code, 0:2] *= rCST.D2R
-
-            i += 42
         return 0
 
     def decode_mt48(self, msg, i):
-- 
2.43.0


From 26971dcabb5b8796ae04bb901db0674992e4f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 118/219] fix: SLAS satellite health message crashed the
 decoder

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 4f50aeb..1b5872a 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -99,6 +99,8 @@ class dgpsDec(cssr):
         self.prn_ofst = {uGNSS.GPS: 0, uGNSS.QZS: 192, uGNSS.GLO: 0,
                          uGNSS.GAL: 0, uGNSS.BDS: 0}
 
+        self.svh = {}
+
         self.dcr = jmaDec(year=year)
         self.dcx = camfDec(year=year)
 
-- 
2.43.0


From e9ed4b7f01a32dd31690368d4a80f07e1fa76ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 119/219] fix: SLAS corrections of stations above 31 crashed
 the decoder

---
 src/cssrlib/dgps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 1b5872a..0b009e5 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -8,7 +8,7 @@ DGPS (QZSS SLAS) correction data decoder
 
 import numpy as np
 import bitstruct as bs
-from cssrlib.cssrlib import cssr, sCSSRTYPE, prn2sat, sCType
+from cssrlib.cssrlib import cssr, sCSSRTYPE, prn2sat, sCType, local_corr
 from cssrlib.gnss import uGNSS, rCST, timediff, time2str, \
     ecef2pos, sat2prn, timediff
 
@@ -99,6 +99,11 @@ class dgpsDec(cssr):
         self.prn_ofst = {uGNSS.GPS: 0, uGNSS.QZS: 192, uGNSS.GLO: 0,
                          uGNSS.GAL: 0, uGNSS.BDS: 0}
 
+        # corrections for each station
+        while len(self.lc) < self.MAX_ST+1:
+            self.lc.append(local_corr())
+            self.lc[-1].t0 = {}
+
         self.svh = {}
 
         self.dcr = jmaDec(year=year)
-- 
2.43.0


From 9b64f7458b5bb6124077fb0ca8455b5d37915e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 120/219] fix: SLAS correction of a satellite without IOD
 crashed the decoder

---
 src/cssrlib/dgps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 0b009e5..e24e688 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -74,6 +74,7 @@ class dgpsDec(cssr):
 
         self.iodssr = -1
         self.iodp_c = {}
+        self.iodn = {}
 
         self.baselen = 0  # baseline length [km]
 
@@ -234,6 +235,9 @@ class dgpsDec(cssr):
             prc = bs.unpack_from('s12', msg, i)[0]*0.04
             i += 12
 
+            if sat not in self.iodn:
+                continue
+
             self.lc[inet].sat_n.append(sat)
             self.lc[inet].iode[sat] = self.iodn[sat]
             self.lc[inet].dclk[sat] = prc
-- 
2.43.0


From e4f51bc4d2f58a285f94a1cb87d53bce531c941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 121/219] fix: SLAS corrections of a new mask were combined
 with the IODs of the old one

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index e24e688..bfd2542 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -166,6 +166,8 @@ class dgpsDec(cssr):
         v = bs.unpack_from('u2u64u9u36u36u36', msg, i)
 
         self.sat_n = []
+        if self.iodp != v[0]:  # issue of data refers to the old mask
+            self.iodi = -1
         self.iodp = v[0]
         sys_t = [uGNSS.GPS, uGNSS.QZS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS]
         for k, sys in enumerate(sys_t):
-- 
2.43.0


From b268915ea3fbe7cb4592641a93da3f42dda4a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 122/219] fix: SLAS corrections of a station that turned
 unhealthy were still used

---
 src/cssrlib/dgps.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index bfd2542..aae6e3b 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -212,7 +212,7 @@ class dgpsDec(cssr):
         """ decode DGPS correction """
         iodp, iodi, code, h, mask_s = bs.unpack_from('u2u2u6u1u23', msg, i)
         i += 34
-        if iodp != self.iodp or iodi != self.iodi or h == 1:
+        if iodp != self.iodp or iodi != self.iodi:
             return i
 
         nsat = 0
@@ -223,6 +223,9 @@ class dgpsDec(cssr):
         self.lc[inet].dorb = {}
         self.lc[inet].sat_n = []
 
+        if h == 1:  # station is unhealthy
+            mask_s = 0
+
         for k in range(23):
             if k >= self.nsat:
                 continue
@@ -317,7 +320,7 @@ class dgpsDec(cssr):
         refid, rmin = self.get_station(rr)
         baselen = rmin*1e-3  # baseline length [km]
         self.inet = refid+1
-        if len(self.lc[self.inet].sat_n) > 0:
+        if self.inet in self.iodp_c:
             self.sat_n = self.lc[self.inet].sat_n
             self.iodssr_c[sCType.ORBIT] = self.iodp_c[self.inet]
             self.iodssr_c[sCType.CLOCK] = self.iodp_c[self.inet]
-- 
2.43.0


From 6b216a67face13d7752ca356f059b74bc03430c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 123/219] fix: OSNMA decoders shared their message buffers

---
 src/cssrlib/osnma.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 57592c8..94b0432 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -257,12 +257,18 @@ class osnma():
         # 'OSNMA_MerkleTree_20240115100000_newPKID_1.xml'
 
         self.cnt = np.zeros(self.GALMAX, dtype=int)
+        self.hk = []
+        self.mack = []
         for prn in range(self.GALMAX):
             self.hk.append(bytearray(15))
             self.mack.append(bytearray(60))
         self.pk_list = {}
 
+        self.dsm = {}
         self.flg_dsm = {}
+        self.nb = {}
+        self.mack_p = bytearray(60*self.GALMAX)
+        self.mack_c = bytearray(60*self.GALMAX)
 
         self.subfrm_n = {}
         self.subfrm_p = {}
-- 
2.43.0


From 936dc694b7b51e5e61b7729249bd1b4bca293ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 124/219] fix: OSNMA public key loaded from a file was not
 stored under the given PKID

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 94b0432..7673bcd 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -310,7 +310,7 @@ class osnma():
         pk = load_pubkey(self.pubk_bdir+pubk_path)
         if pk is None:
             return False
-        self.pk_list[self.pkid] = pk
+        self.pk_list[pkid] = pk
         return True
 
     def verify_root_key(self):
-- 
2.43.0


From f968fd1eeda258612daaaecd1b1f9bc78cb32662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 125/219] fix: OSNMA chain key was verified against the
 unverified previous key of the satellite

---
 src/cssrlib/osnma.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 7673bcd..fa12173 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -371,13 +371,20 @@ class osnma():
         if not self.status & uOSNMA.ROOTKEY_VERIFIED:  # root-key verified
             return False
         if self.status & uOSNMA.KEYCHAIN_VERIFIED:
-            key = self.update_key_chain(key, gst_wn, gst_tow0, 1)
-            result = (key == self.key_p)
+            # use the latest verified key, since those in MACK (incl. the
+            # previous one of the satellite) are not yet authenticated
+            gst_sf = self.set_gst_sf(gst_wn, gst_tow0)
+            ki = self.difftime(gst_sf, self.gst_sf_c)//30
+            key_ref = self.key
         else:
             ki = ((gst_wn-self.wn)*86400*7 +
                   (self.gst_tow-self.towh*3600))//30+1
+            key_ref = self.kroot
+        if ki > 0:
             key = self.update_key_chain(key, gst_wn, gst_tow0, ki)
-            result = (key == self.kroot)
+            result = (key == key_ref)
+        else:
+            result = False
         if result:
             self.status |= uOSNMA.KEYCHAIN_VERIFIED  # key-chain verified
         else:
-- 
2.43.0


From 94c7d575e5ae81b06740059eb1db453b49c027e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 126/219] fix: OSNMA key chain across the start of a week used
 wrong week numbers

---
 src/cssrlib/osnma.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index fa12173..a48767e 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -357,11 +357,8 @@ class osnma():
         # k_l=trunc(lk,hash(k_l+1||GST_SF_l||alp))
         klen_b = self.klen_t[self.ks]//8
         for k in range(ki):
-            gst_tow = gst_tow0 - 30*(k+1)
-            if gst_tow < 0:
-                gst_tow += 86400*7
-                gst_wn -= 1
-            gst = bs.pack('u12u20', gst_wn, gst_tow)
+            dwn, gst_tow = divmod(gst_tow0 - 30*(k+1), 86400*7)
+            gst = bs.pack('u12u20', gst_wn+dwn, gst_tow)
             msg = key + gst + self.alp
             key = self.process_hash(msg)[0:klen_b]
         return key
-- 
2.43.0


From a57670d5af53d7d75edc046b17eee8a6f328f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 127/219] fix: OSNMA decoding failed in the first sub-frame of
 a week

---
 src/cssrlib/osnma.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index a48767e..2136e86 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -302,7 +302,8 @@ class osnma():
 
     def set_gst_sf(self, gst_wn, gst_tow):
         """ set Galileo sub-frame time """
-        gst_sf = bs.pack('u12u20', gst_wn, gst_tow//30*30)
+        dwn, gst_tow = divmod(gst_tow//30*30, 86400*7)
+        gst_sf = bs.pack('u12u20', gst_wn+dwn, gst_tow)
         return gst_sf
 
     def load_pubkey_pkid(self, pubk_path, pkid):
-- 
2.43.0


From 25089c034de39731e17dcc9778f9877ca8b06632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 128/219] fix: OSNMA MAC look-up tables with other than 6 tags
 were read at wrong positions

---
 src/cssrlib/osnma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 2136e86..b9245a3 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -575,7 +575,7 @@ class osnma():
         if self.nt*2 != len(adkd_t):
             return False
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
         for k in range(self.nt-1):
             tag, prn_d, adkd, cop = self.decode_tags_info(k+1)
             i = k + ofst + 1
@@ -604,7 +604,7 @@ class osnma():
             return False
         mode_t = self.mode_t[self.maclt]
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
 
         ltag_b = self.tag_len_t[self.ts]//8+2
         for k in range(self.nt):  # add FLEX taginfo
-- 
2.43.0


From 15c5206b255eaac6045eeafe8b9c40fe28c46113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 129/219] fix: OSNMA flexible tags for the own satellite used
 the format of the first tag

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index b9245a3..a0bdb0c 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -748,7 +748,7 @@ class osnma():
         mlen = 141 if adkd == 4 else 549
         rem_ = mlen-mlen//8*8  # number of remaining bit
         j = 0
-        if adkd == 0 and self.prn_a == prn_d:
+        if ctr == 1:  # first tag (self-authentication)
             mlen += 8+42
             mlen_b = (mlen+7)//8
             m = bytearray(mlen_b)
-- 
2.43.0


From bc133abdd272de2a55b5e0dac57e039688d8f13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 130/219] fix: OSNMA outdated slow MAC tags were only partly
 removed

---
 src/cssrlib/osnma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index a0bdb0c..e751cb1 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -982,6 +982,9 @@ class osnma():
                         print(f"{s} tag not verified")
             # slow MAC
             if self.flg_slowmac:
+                self.tag_list = [
+                    tag_ for tag_ in self.tag_list
+                    if self.difftime(self.gst_sf_p, tag_.gst_sf) <= 300]
                 for tag_ in self.tag_list:
                     dt = self.difftime(self.gst_sf_p, tag_.gst_sf)
                     if dt == 300:
@@ -995,8 +998,6 @@ class osnma():
                                 print(f"Slow-MAC {s} verified")
                             else:
                                 print(f"{s} not verified")
-                    elif dt > 300:
-                        self.tag_list.remove(tag_)
 
             self.nsat = self.count_valid_sat()
             self.cnt[prn-1] = 0
-- 
2.43.0


From da9e0badbd7802eecf88a06a46dad29049144df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 131/219] fix: OSNMA DSM verification depended on the hash
 function of the key chain

---
 src/cssrlib/osnma.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index e751cb1..5309f87 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -300,6 +300,12 @@ class osnma():
         h = digest.finalize()
         return h
 
+    def process_sha256(self, msg):
+        """ calculate SHA-256 hash used for DSM (independent from HF) """
+        digest = hashes.Hash(hashes.SHA256())
+        digest.update(msg)
+        return digest.finalize()
+
     def set_gst_sf(self, gst_wn, gst_tow):
         """ set Galileo sub-frame time """
         dwn, gst_tow = divmod(gst_tow//30*30, 86400*7)
@@ -323,7 +329,7 @@ class osnma():
         msg = bytearray([self.nma_header]) + self.dsm[did][1:13+lk_b]
 
         result = False
-        hash_func = self.hash_table[self.hf]
+        hash_func = hashes.SHA256  # ECDSA P-256/SHA-256
         ds_der = raw2der(self.ds)
         if self.pkid not in self.pk_list.keys():
             return False
@@ -342,14 +348,14 @@ class osnma():
         """ verify P_DK """
         lk_b = self.klen_t[self.ks]//8
         msg = bytearray([self.nma_header]) + self.dsm[did][1:13+lk_b] + self.ds
-        h = self.process_hash(msg)
+        h = self.process_sha256(msg)
         l_pdk = len(p_dk)
         return h[0:l_pdk] == p_dk
 
     def verify_pdp(self, mi, p_dp):
         """ verify P_DP """
         msg = self.root_mt + mi
-        h = self.process_hash(msg)
+        h = self.process_sha256(msg)
         l_pdp = len(p_dp)
         return h[0:l_pdp] == p_dp
 
@@ -455,14 +461,14 @@ class osnma():
             return False
 
         # 6.2 DSM-PKR Verification
-        x = self.process_hash(mi)  # Eq.12
+        x = self.process_sha256(mi)  # Eq.12
         for k in range(4):
             itn_b = itn[k*32:(k+1)*32]
             if mid % 2 == 0:
                 msg = x+itn_b
             else:
                 msg = itn_b+x
-            x = self.process_hash(msg)  # Eq.13
+            x = self.process_sha256(msg)  # Eq.13
             mid >>= 1
 
         result = (x == self.root_mt)
-- 
2.43.0


From 3b56f3bc7d16c44ee2128c2e817866ca45432087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 132/219] fix: OSNMA verified root key was replaced by an
 unverified one

---
 src/cssrlib/osnma.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 5309f87..a2bb4b5 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -399,6 +399,20 @@ class osnma():
 
     def decode_dsm_kroot(self, did):
         """ decode DSM-KROOT """
+        prm_t = ('pkid', 'cidkr', 'hf', 'mf', 'ks', 'ts', 'maclt', 'wn',
+                 'towh', 'alp', 'kroot', 'ds', 'did0')
+        prm_p = {p: getattr(self, p) for p in prm_t}
+
+        if not self.load_dsm_kroot(did):
+            for p in prm_t:  # keep the parameters in use
+                setattr(self, p, prm_p[p])
+            return False
+
+        self.status |= uOSNMA.ROOTKEY_LOADED  # KROOT loaded
+        return True
+
+    def load_dsm_kroot(self, did):
+        """ load and check parameters in DSM-KROOT """
         v = bs.unpack_from('u4u4u2u2u2u2u4u4u8u4u12u8', self.dsm[did], 0)
         nb = v[0]+6   # number of blocks
         self.pkid = v[1]  # Public Key ID
@@ -428,8 +442,10 @@ class osnma():
             if self.monlevel > 0:
                 print("p_dk verification error.")
             return False
-        self.status |= uOSNMA.ROOTKEY_LOADED  # KROOT loaded
         self.did0 = did
+        # verified root key shall be replaced by verified one only
+        if self.status & uOSNMA.ROOTKEY_VERIFIED:
+            return self.verify_root_key()
         return True
 
     def decode_dsm_pkr(self, did):
-- 
2.43.0


From b49c156a040eb10c362441b1b0499805b9be1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 133/219] fix: OSNMA DSM-PKR without loaded Merkle tree raised
 an error

---
 src/cssrlib/osnma.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index a2bb4b5..8e16b17 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -354,6 +354,8 @@ class osnma():
 
     def verify_pdp(self, mi, p_dp):
         """ verify P_DP """
+        if self.root_mt == -1:  # root of Merkle tree is not available
+            return False
         msg = self.root_mt + mi
         h = self.process_sha256(msg)
         l_pdp = len(p_dp)
-- 
2.43.0


From 2efe35722f6bf7b74764f480681d519d468fb650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 134/219] fix: OSNMA pages of different sub-frames were
 combined when pages were lost

---
 src/cssrlib/osnma.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 8e16b17..bae48db 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -257,6 +257,7 @@ class osnma():
         # 'OSNMA_MerkleTree_20240115100000_newPKID_1.xml'
 
         self.cnt = np.zeros(self.GALMAX, dtype=int)
+        self.sf_n = {}  # sub-frame being collected for each satellite
         self.hk = []
         self.mack = []
         for prn in range(self.GALMAX):
@@ -868,7 +869,9 @@ class osnma():
         """
         status = False
         ki = (tow % 30)//2
-        if ki == 0:  # reset counter
+        sf = (wn, tow//30)
+        if ki == 0 or sf != self.sf_n.get(prn):  # reset counter
+            self.sf_n[prn] = sf
             self.cnt[prn-1] = 0
             self.hk[prn-1] = bytearray(15)
             self.mack[prn-1][0] = 0
-- 
2.43.0


From f413e3cd99fa8604a594de9cb400157f0aa2febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 135/219] fix: OSNMA slow MAC tags were counted once for every
 satellite

---
 src/cssrlib/osnma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index bae48db..a8980c6 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -1025,6 +1025,10 @@ class osnma():
                                 print(f"Slow-MAC {s} verified")
                             else:
                                 print(f"{s} not verified")
+                # each tag is verified only once
+                self.tag_list = [
+                    tag_ for tag_ in self.tag_list
+                    if self.difftime(self.gst_sf_p, tag_.gst_sf) < 300]
 
             self.nsat = self.count_valid_sat()
             self.cnt[prn-1] = 0
-- 
2.43.0


From 9c6e203405323eb0456c5da4bb11b4fc65da5794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 136/219] fix: QZNMA used the first loaded public key for all
 key IDs and failed without key file

---
 src/cssrlib/qznma.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 7652cf9..169cba6 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -13,6 +13,7 @@ Note:
 """
 
 import copy
+import os
 from binascii import unhexlify, hexlify
 import numpy as np
 import bitstruct.c as bs
@@ -92,6 +93,7 @@ class qznma():
     def __init__(self):
         self.navmsg = {}
         self.pk = None
+        self.pk_id = -1
         self.rds = {}
         self.flag_e = {}
         self.mask = {}
@@ -500,6 +502,17 @@ class qznma():
 
         return npr, mnav
 
+    def set_pubkey(self, keyid):
+        """ load public key for given key ID """
+        if self.pk is not None and self.pk_id == keyid:
+            return True
+        pubk_path = self.pubk_bdir + f"/{keyid:03d}.der"
+        if not os.path.exists(pubk_path):
+            return False
+        self.pk = load_pubkey(pubk_path)
+        self.pk_id = keyid
+        return self.pk is not None
+
     def verify_gnss_nav(self, npr, mnav):
         """ verifify the navigation message in MNAV using DS """
         if npr.mt == uNavId.GPS_LNAV:
@@ -525,13 +538,10 @@ class qznma():
         sat = self.svid2sat(npr.svid)
         sys, prn = sat2prn(sat)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
+        if not self.set_pubkey(npr.keyid):
+            if self.monlevel > 0:
+                print(f"loading public key {npr.keyid} was faild.")
+            return False
 
         ds_der = raw2der(npr.ds)
         status = False
@@ -719,13 +729,10 @@ class qznma():
         rand_[1:k1+1] = msg
         bs.pack_into('u16', rand_, 8+mlen, npr.salt)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
+        if not self.set_pubkey(npr.keyid):
+            if self.monlevel > 0:
+                print(f"loading public key {npr.keyid} was faild.")
+            return False
 
         status = False
         try:
-- 
2.43.0


From adb30869235f57476ba7414517a647ea88b6e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 137/219] fix: QZNMA of the first messages of a week was
 skipped

---
 src/cssrlib/qznma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 169cba6..d2c9515 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -801,7 +801,7 @@ class qznma():
                 sid = bs.unpack_from('u3', msg, 53)[0]
                 tow_ = bs.unpack_from('u17', msg, 32+2)[0]*6
                 _, prn = sat2prn(sat)
-                ki = (tow_-self.tow_p[sat])//6
+                ki = ((tow_-self.tow_p[sat]) % 604800)//6
 
                 if sid == 4 or sid == 5:
                     data_id, svid = bs.unpack_from('u2u6', msg, 32*2+2)
@@ -831,7 +831,7 @@ class qznma():
                 prn_, msgid, tow_, alert = bs.unpack_from('u6u6u17u1', msg, 8)
                 prn = prn_ + 192
                 tow_ *= 6
-                ki = (tow_-self.tow_p[sat])//6
+                ki = ((tow_-self.tow_p[sat]) % 604800)//6
 
                 if msgid == 60:
                     self.npr[sat] = self.gen_rds(sat, uNavId.GPS_CNAV, msg)
@@ -867,7 +867,7 @@ class qznma():
                     if self.mask[sat] == 7:
                         self.tow_p[sat], self.mask[sat] = tow_, 0
 
-                elif tow_ == self.tow_p[sat]+18:
+                elif (tow_-self.tow_p[sat]) % 604800 == 18:
                     mnav = self.cnav2_to_mnav(toi, msg)
                     status = self.verify_qzss_nav(
                         sat, self.npr[sat], mnav, uNavId.GPS_CNAV2)
-- 
2.43.0


From a092a5e8d2fc072e4ab8af02e85a9b051e01cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 138/219] fix: QZNMA never recovered from a lost segment of the
 signature

---
 src/cssrlib/qznma.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index d2c9515..45c137c 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -581,6 +581,8 @@ class qznma():
 
         if mode == uNavId.GPS_LNAV:  # 540bits (180bitsx3)
             sid, d = bs.unpack_from('u2u14', msg, 32*2+2+8)
+            if sid == 1:  # first segment of new RDS
+                self.mask[sat] = 0
             if sid > 0:
                 i0 = (sid-1)*180
                 bs.pack_into('u14', self.rds[sat], i0, d)
@@ -593,12 +595,16 @@ class qznma():
 
         elif mode == uNavId.GPS_CNAV:  # 708bits (236bits*3)
             sid = bs.unpack_from('u2', msg, 38)[0]
+            if sid == 1:  # first segment of new RDS
+                self.mask[sat] = 0
             if sid > 0:
                 copy_buff(msg, self.rds[sat], 40, (sid-1)*236, 236)
                 self.mask[sat] |= (1 << (sid-1))
 
         elif mode == uNavId.GPS_CNAV2:  # 702bits (234bits*3)
             sid = bs.unpack_from('u2', msg, 1266)[0]
+            if sid == 1:  # first segment of new RDS
+                self.mask[sat] = 0
             if sid > 0:
                 copy_buff(msg, self.rds[sat], 1268, (sid-1)*234, 234)
                 self.mask[sat] |= (1 << (sid-1))
-- 
2.43.0


From 1e4bdad7fed9147b6c92cf11e2bab2f840e6b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 139/219] fix: QZNMA navigation message was lost when another
 type had the same IOD

---
 src/cssrlib/qznma.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 45c137c..712e12a 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -141,6 +141,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_LNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_LNAV] = navmsg
 
     def load_navmsg_cnav(self, navfile):
@@ -175,6 +176,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_CNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_CNAV] = navmsg
 
     def load_navmsg_fnav(self, navfile):
-- 
2.43.0


From 22983ccdd50a96bf142f70df7227862f750e42e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 140/219] fix: QZNMA message with reserved satellite ID raised
 an error

---
 src/cssrlib/qznma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 712e12a..2276628 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -411,6 +411,7 @@ class qznma():
 
     def svid2sat(self, svid):
         """ convert svid in QZNMA to sat """
+        sat = 0
         if svid <= 63:
             sat = prn2sat(uGNSS.GPS, svid)
         elif svid <= 127:
-- 
2.43.0


From 3eeb6246cec392fac6acd3a974aa2c050a800cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 141/219] fix: QZNMA keeps a public key given by the user

---
 src/cssrlib/qznma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 2276628..926abf1 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -507,8 +507,8 @@ class qznma():
 
     def set_pubkey(self, keyid):
         """ load public key for given key ID """
-        if self.pk is not None and self.pk_id == keyid:
-            return True
+        if self.pk is not None and self.pk_id in (-1, keyid):
+            return True  # loaded or given by user
         pubk_path = self.pubk_bdir + f"/{keyid:03d}.der"
         if not os.path.exists(pubk_path):
             return False
-- 
2.43.0


From 39be725dbf77c52c088ffdf478401df8499a603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 142/219] fix: QZNMA raised an error for a repeated segment of
 the signature

---
 src/cssrlib/qznma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 926abf1..05e85a8 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -731,6 +731,9 @@ class qznma():
         elif mode == uNavId.GPS_CNAV2:
             blen, mlen = 100, 609
 
+        if npr is None:  # signature is incomplete
+            return False
+
         k1 = (mlen+7)//8
 
         rand_ = bytearray(blen)
-- 
2.43.0


From 5ab247c1c06377c3483ebc661d3e5a223487f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 143/219] fix: transmission time of raw LNAV message was in BDT
 weeks

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index b95e825..835feba 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -463,7 +463,7 @@ class RawNav():
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.mode = 0  # LNAV
 
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = gpst2time(eph.week, tow)
         if toc < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
-- 
2.43.0


From ffb1d2c63e3a03de0c4d06d4fafaf6bd7b318323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 144/219] fix: week of raw LNAV message was wrong around the
 week number rollover

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 835feba..08d5e8e 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -432,7 +432,7 @@ class RawNav():
         if iode != iode2 or iode != (iodc & 0xff):
             return None
 
-        eph.week = (week // 1024)*1024 + wn
+        eph.week = wn + (week-wn+512)//1024*1024
         eph.l2p = l2p
         eph.code = code
         eph.svh = svh
-- 
2.43.0


From 0f446a9faa4ce414d9ea0a0629087e6979aaaf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 145/219] fix: week of raw Galileo messages was not the week of
 the ephemeris

---
 src/cssrlib/rawnav.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 08d5e8e..b6e7bcf 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -263,6 +263,7 @@ class RawNav():
             week_gst += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
             week_gst -= 1
+        eph.week = week_gst + 1024
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
 
@@ -351,6 +352,7 @@ class RawNav():
         elif toc > tow + rCST.HALFWEEK_SEC:
             week_gst -= 1
 
+        eph.week = week_gst + 1024
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
 
-- 
2.43.0


From 01671d08a3df7920725ec10cf48f67f8cd332ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 146/219] fix: raw Galileo F/NAV message was compared with the
 wrong satellite ID

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index b6e7bcf..4b94be3 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -298,7 +298,7 @@ class RawNav():
         sid3, iodnav3 = bs.unpack_from('u6u10', buff, 248*2)
         sid4, iodnav4 = bs.unpack_from('u6u10', buff, 248*3)
 
-        if svid != svid1 or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
+        if prn != svid1 or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
             return None
         if iodnav1 != iodnav2 or iodnav1 != iodnav3 or iodnav1 != iodnav4:
             return None
-- 
2.43.0


From f6d6851e78eaed3fdd234b39bebde72c99c47715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 147/219] fix: week of the prediction time of raw CNAV messages
 was wrong around the rollover

---
 src/cssrlib/rawnav.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 4b94be3..a0fd9ac 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -634,7 +634,8 @@ class RawNav():
         eph.omg = omg*rCST.P2_32*rCST.SC2RAD
         eph.integ = (alert << 2) | (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        if wn_op >= 0:
+            eph.wn_op = wn_op + (wn-wn_op+128)//256*256
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
@@ -747,7 +748,7 @@ class RawNav():
         else:
             eph.integ = (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        eph.wn_op = wn_op + (wn-wn_op+128)//256*256
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
-- 
2.43.0


From 1611cc4cc78f174318e483357132f842d10e93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 148/219] fix: raw CNAV-2 messages of the second half of a week
 were a week late

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index a0fd9ac..6d801a9 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -765,9 +765,9 @@ class RawNav():
 
         eph.mode = 2  # CNAV/2
         eph.tot = gpst2time(eph.week, tow)
-        if toe < tow - rCST.HALFWEEK_SEC:
+        if eph.toes < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
-        elif toe > tow + rCST.HALFWEEK_SEC:
+        elif eph.toes > tow + rCST.HALFWEEK_SEC:
             eph.week -= 1
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = eph.toe
-- 
2.43.0


From cc2de50aa43b82a2a671548d674f370e1299cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 149/219] fix: times of raw BeiDou messages were not converted
 to GPST

---
 src/cssrlib/rawnav.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 6d801a9..f986527 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -896,7 +896,7 @@ class RawNav():
             return None
 
         tow = how*3600+soh
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = bdt2gpst(bdt2time(eph.week, tow))
 
         i = self.decode_bds_cnav_eph1(msg, eph, i)
         i = self.decode_bds_cnav_eph2(msg, eph, i)
@@ -1013,7 +1013,7 @@ class RawNav():
         eph.tgd_b = tgd_b2ap*rCST.P2_34
 
         eph.svh = hs
-        eph.tot = bdt2time(eph.week, sow1)
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 2  # B-CNAV2
 
         return eph
@@ -1070,7 +1070,7 @@ class RawNav():
         eph.sisai[0], eph.svh = bs.unpack_from('u5u2', buff, i)
         i += 7
 
-        eph.tot = bdt2time(eph.week, sow1)
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 3  # B-CNAV3
 
         return eph
@@ -1158,8 +1158,8 @@ class RawNav():
             eph.week += 1
         elif eph.toes < sow1-rCST.HALFWEEK_SEC:
             eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        eph.toc = bdt2gpst(bdt2time(eph.week, toc))
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 1  # IGSO/MEO
         eph.mode = 0
@@ -1277,8 +1277,8 @@ class RawNav():
             eph.week += 1
         elif eph.toes < sow_[0]-302400.0:
             eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        eph.toc = bdt2gpst(bdt2time(eph.week, toc))
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 2  # GEO
         eph.mode = 0
-- 
2.43.0


From 916f176a29af05385501ff3c0a039e2a32dd149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 150/219] fix: raw BeiDou D1/D2 messages were two weeks off
 around the week rollover

---
 src/cssrlib/rawnav.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index f986527..eaf795d 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1155,9 +1155,9 @@ class RawNav():
         eph.toes = ((toe1 << 15)+toe2)*8.0
         eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         if eph.toes > sow1+rCST.HALFWEEK_SEC:
-            eph.week += 1
-        elif eph.toes < sow1-rCST.HALFWEEK_SEC:
             eph.week -= 1
+        elif eph.toes < sow1-rCST.HALFWEEK_SEC:
+            eph.week += 1
         eph.toc = bdt2gpst(bdt2time(eph.week, toc))
         eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
@@ -1274,9 +1274,9 @@ class RawNav():
 
         eph.tot = bdt2gpst(bdt2time(eph.week, sow_[0]))
         if eph.toes > sow_[0]+302400.0:
-            eph.week += 1
-        elif eph.toes < sow_[0]-302400.0:
             eph.week -= 1
+        elif eph.toes < sow_[0]-302400.0:
+            eph.week += 1
         eph.toc = bdt2gpst(bdt2time(eph.week, toc))
         eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
-- 
2.43.0


From 708f24ef64c30124b69fe779469ca990aec65f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 151/219] fix: mean anomaly and semi-major axis of raw BeiDou
 D2 messages

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index eaf795d..0ab47da 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1223,7 +1223,7 @@ class RawNav():
         # page 5
         i = 160*4
         cucp5 = bs.unpack_from('u4', buff, i+46)[0]
-        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 12, i+90, 8) * \
+        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 22, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
         ep5 = bs.unpack_from('s10', buff, i+124)[0]
@@ -1231,7 +1231,7 @@ class RawNav():
         # page 6
         i = 160*5
         ep6 = self.getbitu2(buff, i+46, 6, i+60, 16)
-        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, 120, 4)*rCST.P2_19
+        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, i+120, 4)*rCST.P2_19
         eph.A = sqrtA**2
         cicp6 = bs.unpack_from('s10', buff, i+124)[0]
 
-- 
2.43.0


From f2ccdd763b8d065135bd1dd21b72e305c5da722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 152/219] fix: raw BeiDou D2 pages of different frames were
 combined

---
 src/cssrlib/rawnav.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 0ab47da..065d2d6 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1193,7 +1193,8 @@ class RawNav():
                 return None
             sow_[k] = self.getbitu2(buff, 160*k+18, 8, 160*k+30, 12)
             if k == 2:
-                sow_[k] != sow_[k-2]+6
+                if sow_[k] != sow_[k-2]+6:
+                    return None
             elif k > 0 and sow_[k] != sow_[k-1]+3:
                 return None
 
-- 
2.43.0


From b33a5deecbd1bd182b24ad01f3811a496c67ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 153/219] fix: raw BeiDou D1 subframes of different frames were
 combined

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 065d2d6..d6ea964 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1103,8 +1103,8 @@ class RawNav():
         if id1 != 1 or id2 != 2 or id3 != 3:
             return None
 
-        # if sow2 != sow1+6 or sow3 != sow2+6:
-        #    return None
+        if (sow2-sow1) % 604800 != 6 or (sow3-sow2) % 604800 != 6:
+            return None
 
         eph = Eph(sat)
 
-- 
2.43.0


From 7cda540b6ff117f3dc5c3a84f077fd8f44b2dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 154/219] fix: week of ephemeris of raw BeiDou CNAV messages
 (unset for B2b, off around the rollover)

---
 src/cssrlib/rawnav.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index d6ea964..0bc6da5 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -28,6 +28,7 @@ import struct as st
 from cssrlib.gnss import gpst2time, gst2time, bdt2time, rCST
 from cssrlib.gnss import uGNSS, sat2prn, bdt2gpst, utc2gpst, time2gpst
 from cssrlib.gnss import Eph, Geph, uTYP, copy_buff, gtime_t, timeadd, Seph
+from cssrlib.gnss import timediff, time2bdt, gpst2bdt, time2gst
 from cssrlib.gnss import tod2tow, char2sys
 from cssrlib.rinex import rnxenc, rSigRnx
 
@@ -143,6 +144,15 @@ class RawNav():
         s, v = bs.unpack_from('u1u'+str(len_-1), buff, pos)
         return -v if s else v
 
+    def adjweek(self, t, t0):
+        """ adjust time to be within half a week from t0 """
+        dt = timediff(t, t0)
+        if dt < -rCST.HALFWEEK_SEC:
+            return timeadd(t, 2*rCST.HALFWEEK_SEC)
+        if dt > rCST.HALFWEEK_SEC:
+            return timeadd(t, -2*rCST.HALFWEEK_SEC)
+        return t
+
     def urai2sva(self, urai, sys=uGNSS.GPS):
         """ GPS/QZSS SV accuracy [1] 20.3.3.3.1.3, [2] Tab. 5.4.3-2 """
         # sva_t = [2.40, 3.40, 4.85, 6.85, 9.65, 13.65, 24.00, 48.00, 96.00,
@@ -791,7 +801,8 @@ class RawNav():
 
         Aref = 27906100.0 if eph.sattype == 3 else 42162200.0
         eph.A = Aref + dA*2**-9
-        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
+        eph.toe = self.adjweek(bdt2gpst(bdt2time(eph.week, eph.toes)), eph.tot)
+        eph.week, _ = time2bdt(gpst2bdt(eph.toe))
         return i
 
     def decode_bds_cnav_eph2(self, msg, eph, i):
@@ -821,7 +832,7 @@ class RawNav():
         eph.af0 = a0*rCST.P2_34
         eph.af1 = a1*rCST.P2_50
         eph.af2 = a2*rCST.P2_66
-        eph.toc = bdt2gpst(bdt2time(eph.week, tocs))
+        eph.toc = self.adjweek(bdt2gpst(bdt2time(eph.week, tocs)), eph.tot)
         return i
 
     def decode_bds_cnav_iono(self, msg, i):
@@ -986,6 +997,7 @@ class RawNav():
         eph.week, ib2a, eph.sismai, ib1c, eph.iode = bs.unpack_from(
             'u13u3s4u3u8', buff, i)
         i += 31
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         i = self.decode_bds_cnav_eph1(buff, eph, i)
         eph.integ = (ib2a << 3)+ib1c
 
@@ -1013,7 +1025,6 @@ class RawNav():
         eph.tgd_b = tgd_b2ap*rCST.P2_34
 
         eph.svh = hs
-        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 2  # B-CNAV2
 
         return eph
@@ -1049,6 +1060,8 @@ class RawNav():
         eph.isc = np.zeros(6)
 
         # decode MT10
+        eph.week = bs.unpack_from('u13', buff, 512+ofst+26)[0]
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         i = ofst+30
         i = self.decode_bds_cnav_eph1(buff, eph, i)
         i = self.decode_bds_cnav_eph2(buff, eph, i)
@@ -1058,7 +1071,6 @@ class RawNav():
 
         # decode MT30
         i = 512+ofst+26
-        eph.week = bs.unpack_from('u13', buff, i)[0]
         i += 13+4
         i = self.decode_bds_cnav_clk(buff, eph, i)
         eph.tgd = bs.unpack_from('s12', buff, i)[0]*rCST.P2_34  # tgd-B2bI
@@ -1070,7 +1082,6 @@ class RawNav():
         eph.sisai[0], eph.svh = bs.unpack_from('u5u2', buff, i)
         i += 7
 
-        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 3  # B-CNAV3
 
         return eph
-- 
2.43.0


From efe3ebf0d99137b47916590073bed5f3eb97407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 155/219] fix: raw NavIC messages were a week off around the
 week rollover

---
 src/cssrlib/rawnav.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 0bc6da5..bfee0c7 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1377,11 +1377,10 @@ class RawNav():
         eph.toc = gpst2time(eph.week, toc)
         eph.toe = gpst2time(eph.week, eph.toes)
 
-        if eph.toes > tow1+302400.0:
-            week += 1
-        elif eph.toes < tow1-302400.0:
-            week -= 1
-        eph.tot = gpst2time(week, tow1)
+        eph.tot = gpst2time(eph.week, tow1)
+        eph.toc = self.adjweek(eph.toc, eph.tot)
+        eph.toe = self.adjweek(eph.toe, eph.tot)
+        eph.week, _ = time2gpst(eph.toe)
 
         eph.mode = 0
         return eph
@@ -1560,9 +1559,10 @@ class RawNav():
         eph.cuc = cuc*rCST.P2_30
 
         eph.mode = 2  # L1NAV
-        eph.toe = gst2time(eph.week, eph.toes)
-        eph.toc = eph.toe
         eph.tot = gst2time(eph.week, tow)
+        eph.toe = self.adjweek(gst2time(eph.week, eph.toes), eph.tot)
+        eph.toc = eph.toe
+        eph.week, _ = time2gst(eph.toe)
 
         return eph
 
-- 
2.43.0


From 45ab1497b2d9221056a60d9cc3c3ba7580bb0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 156/219] fix: GPS signal in the table of Galileo signals of
 receiver decoder

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index bfee0c7..64ac173 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -2049,7 +2049,7 @@ class rcvDec():
                          rSigRnx('EL8Q'), rSigRnx('EL6C')],
                 uTYP.D: [rSigRnx('ED1C'), rSigRnx('ED5Q'), rSigRnx('ED7Q'),
                          rSigRnx('ED8Q'), rSigRnx('ED6C')],
-                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('GS7Q'),
+                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('ES7Q'),
                          rSigRnx('ES8Q'), rSigRnx('ES6C')],
             }
 
-- 
2.43.0


From aeab4f931886882ccf4fb4f1bfb606f9a159e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 157/219] fix: accuracy of negative URA index

---
 src/cssrlib/rawnav.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 64ac173..931dbea 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -162,6 +162,8 @@ class RawNav():
         sva_t = [2.0, 2.8, 4.0, 5.7, 8.0, 11.3, 16.0, 32.0,
                  64.0, 128.0, 256.0, 512.0, 1024.0, 2048.0, 4096.0, 8192.0]
 
+        if urai < 0:
+            return 2.0**(1+0.5*urai)
         return sva_t[urai]
 
     def sisa2sva(self, sisa):
-- 
2.43.0


From 975b51f319e25f0af9ee2cda9359c3be90ae1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 158/219] fix: do not use an empty buffer as NavIC sub-frame 1
 in rawnav

---
 src/cssrlib/rawnav.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 931dbea..fee19cd 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -107,7 +107,8 @@ class RawNav():
 
         self.irn_nav = {}
         for k in range(uGNSS.IRNMAX):
-            self.irn_nav[k] = bytearray(200)
+            # no sub-frame received (sub-frame 1 has id 0)
+            self.irn_nav[k] = bytearray(b'\xff'*200)
 
     def u2s(self, u, blen):
         if u & (1 << (blen-1)):
-- 
2.43.0


From 39680d7fe62a5ca0821b39a8a92d1e8bcc92acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 159/219] fix: range of circle areas in cssr_mdc

---
 src/cssrlib/cssr_mdc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 30c1b11..6e5db74 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -77,9 +77,9 @@ class cssr_mdc(cssr):
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
                     de = (lond - p.lonr)*rCST.D2R * \
-                        rCST.RE_WGS84*np.cos(p.lonr*rCST.D2R)
+                        rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
-                    if r <= p.rng:
+                    if r <= p.rng*1e3:  # rng in km
                         self.reg = reg
                         self.area = area
                         break
-- 
2.43.0


From 5d6ce36613dab1b5d18201a53c84c214d5b00322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 160/219] fix: areas at western longitudes in cssr_mdc

---
 src/cssrlib/cssr_mdc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 6e5db74..39bd031 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -68,15 +68,17 @@ class cssr_mdc(cssr):
         for reg in self.pnt.keys():
             for area in self.pnt[reg].keys():
                 p = self.pnt[reg][area]
+                # longitude of areas: 0 to 360 deg
+                dlon = (lond - p.lonr + 180.0) % 360.0 - 180.0
                 if p.sid == 0:  # rectangle shape:
                     if p.latr-p.lats <= latd and latd <= p.latr+p.lats and \
-                            p.lonr-p.lons <= lond and lond <= p.lonr+p.lons:
+                            abs(dlon) <= p.lons:
                         self.reg = reg
                         self.area = area
                         break
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
-                    de = (lond - p.lonr)*rCST.D2R * \
+                    de = dlon*rCST.D2R * \
                         rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
                     if r <= p.rng*1e3:  # rng in km
@@ -96,7 +98,7 @@ class cssr_mdc(cssr):
         latd, lond = np.rad2deg(pos[0:2])
         p = self.pnt[self.reg][self.area]
         dlat = latd - p.latr
-        dlon = lond - p.lonr
+        dlon = (lond - p.lonr + 180.0) % 360.0 - 180.0
 
         return dlat, dlon
 
-- 
2.43.0


From 14f4f035a023225869f51791a6afa38b3c825f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 161/219] fix: code biases of encoded RTCM SSR messages were
 truncated instead of rounded

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index ac8214b..3985066 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4749,7 +4749,7 @@ class rtcme(cssre, rtcmUtil):
             i += 5
 
             for rsig_ in cbias:
-                cb = int(cbias[rsig_]/0.01)
+                cb = self.ival(cbias[rsig_], 14, 0.01)
                 code = self.rsig2code(rsig_)
                 bs.pack_into('u5s14', msg, i, code, cb)
                 i += 19
-- 
2.43.0


From cf3ff357807cb16c81d8cbb814cd68020f4e3ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 162/219] fix: URA of encoded SSR messages was truncated to the
 next lower index

---
 src/cssrlib/cssrlib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 6ee7703..aa27979 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1512,6 +1512,8 @@ class cssre():
         """ convert from quality to quality index (class, value) """
         n3 = np.log(3)
         n_ = np.log(y*1000+1)/n3
-        cls_ = int(n_)
-        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25)
+        cls_ = min(int(n_+1e-9), 7)
+        val_ = round((np.exp((n_-cls_)*n3)-1)/0.25)
+        if val_ > 7:  # next class, or above the range
+            cls_, val_ = (cls_+1, 0) if cls_ < 7 else (7, 7)
         return cls_, val_
-- 
2.43.0


From 6095f88b63a96a11abda535d704a8c637424fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 163/219] fix: number of satellites of encoded RTCM SSR code
 bias and URA messages

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 3985066..e266cf5 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4559,7 +4559,7 @@ class rtcme(cssre, rtcmUtil):
 
         return i
 
-    def encode_head(self, msg, i, sys=uGNSS.NONE):
+    def encode_head(self, msg, i, sys=uGNSS.NONE, sat_n=None):
         """ encode the header of ssr message """
         if self.msgtype == 4076 or sys != uGNSS.GLO:
             blen = 20
@@ -4592,7 +4592,7 @@ class rtcme(cssre, rtcmUtil):
         if self.subtype not in [sCSSR.VTEC, sRTCM.SSR_PBIAS, sRTCM.SSR_STEC,
                                 sRTCM.SSR_TROP]:
             nsat = 0
-            for sat in self.sat_n:
+            for sat in self.sat_n if sat_n is None else sat_n:
                 sys_, _ = sat2prn(sat)
                 if sys_ != sys:
                     continue
@@ -4716,8 +4716,8 @@ class rtcme(cssre, rtcmUtil):
     def encode_cssr_ura(self, msg, i, inet=0):
         """ encode RTCM SSR URA message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
         ura = self.lc[inet].ura
+        i = self.encode_head(msg, i, sys, ura)
 
         for sat in ura:
             sys_, _ = sat2prn(sat)
@@ -4736,7 +4736,7 @@ class rtcme(cssre, rtcmUtil):
     def encode_cssr_cbias(self, msg, i, inet=0):
         """ encode RTCM SSR code bias message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
+        i = self.encode_head(msg, i, sys, self.lc[inet].cbias)
 
         for sat in self.lc[inet].cbias:
             sys_, _ = sat2prn(sat)
-- 
2.43.0


From 17d212fef139a5abe38169ccf72c46f96ffc676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 164/219] fix: yaw of encoded RTCM SSR phase bias did not
 follow the yaw indicator

---
 src/cssrlib/rtcm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e266cf5..ac1da11 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4781,9 +4781,12 @@ class rtcme(cssre, rtcmUtil):
             bs.pack_into('u5', msg, i, nsig)
             i += 5
 
-            if sat in self.lc[inet].yaw:
-                yaw = int(self.lc[inet].yaw[sat]*256.0)
-                dyaw = int(self.lc[inet].dyaw[sat]*8192.0)
+            # yaw is present for all satellites or for none of them
+            if self.subtype != sRTCM.SSR_PBIAS or self.iyaw:
+                yaw, dyaw = 0, 0
+                if sat in self.lc[inet].yaw:
+                    yaw = round(self.lc[inet].yaw[sat]*256.0) % 512
+                    dyaw = self.ival(self.lc[inet].dyaw[sat], 8, 1.0/8192.0)
                 bs.pack_into('u9s8', msg, i, yaw, dyaw)
                 i += 17
 
-- 
2.43.0


From 86e05371ca23ed650abd2bf53f7639d77c468531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 165/219] fix: RTCM SSR combined and high-rate clock messages
 could not be encoded

---
 src/cssrlib/rtcm.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index ac1da11..a0a86ca 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -316,7 +316,7 @@ class rtcmUtil:
             sCSSR.MASK: sCType.MASK, sCSSR.CBIAS: sCType.CBIAS,
             sCSSR.PBIAS: sCType.PBIAS, sCSSR.URA: sCType.URA,
             sCSSR.GRID: sCType.TROP, sCSSR.STEC: sCType.STEC,
-            sCSSR.COMBINED: sCType.OC,
+            sCSSR.COMBINED: sCType.OC, sCSSR.HCLOCK: sCType.HCLOCK,
             sRTCM.SSR_PBIAS: sCType.PBIAS,
             sRTCM.SSR_TROP: sCType.TROP,
             sRTCM.SSR_STEC: sCType.STEC,
@@ -4713,6 +4713,35 @@ class rtcme(cssre, rtcmUtil):
 
         return i
 
+    def encode_cssr_hclk(self, msg, i, inet=0):
+        """ encode RTCM SSR High-rate Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_hclk_sat(msg, i, sat)
+
+        return i
+
+    def encode_cssr_comb(self, msg, i, inet=0):
+        """ encode RTCM SSR Combined Orbit and Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_orb_sat(msg, i, sat)
+            i = self.encode_clk_sat(msg, i, sat)
+
+        return i
+
     def encode_cssr_ura(self, msg, i, inet=0):
         """ encode RTCM SSR URA message """
         sys = self.get_ssr_sys(self.msgtype)
@@ -5002,7 +5031,7 @@ class rtcme(cssre, rtcmUtil):
             self.subtype = sCSSR.URA
             i = self.encode_cssr_ura(msg, i)
         elif self.msgtype in [1062, 46, 77, 78, 79]:
-            self.subtype = sCSSR.CLOCK
+            self.subtype = sCSSR.HCLOCK
             i = self.encode_cssr_hclk(msg, i)
         elif self.msgtype in [1059, 43, 68, 69, 70]:
             self.subtype = sCSSR.CBIAS
-- 
2.43.0


From 0aa59f95f83ad23589de93e40c592acf7a2c0252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 166/219] fix: RTCM SSR tropospheric message without residuals
 and grid message of type 1 with offset

---
 src/cssrlib/rtcm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index a0a86ca..02500de 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3159,9 +3159,9 @@ class rtcm(cssr, rtcmUtil):
                 dlon_s = self.sval(dlon, 14, 1e-3)
                 lat += dlat_s
                 lon += dlon_s
-                d = np.array([(gid, k, lat, lon, 0)], dtype=dtype0)
+                d = np.array([(gid, ofst+k+1, lat, lon, 0)], dtype=dtype0)
                 self.grid = np.append(self.grid, d)
-                self.dpos[k-ofst, :] = (dlat_s, dlon_s, 0)
+                self.dpos[k, :] = (dlat_s, dlon_s, 0)
 
         elif gtype == 2:  # grid type 2
             lat0_, lon0_, nrow, ncol, dlat_, dlon_, gma = bs.unpack_from(
@@ -3281,6 +3281,7 @@ class rtcm(cssr, rtcmUtil):
         # west-east gradient c10 [m/deg]
         ct[1, 2] = self.sval(ct10w, 15, 0.01e-3)
 
+        ofst, ng, rh, rw = 0, 0, None, None
         if rmi:  # residual information part
             ofst, ng, n, m = bs.unpack_from('u12u12u4u4', msg, i)
             i += 32
-- 
2.43.0


From f9846ce2fd96999ed4609150c83b85d2617f04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 167/219] fix: grid points of encoded RTCM SSR grid messages
 were truncated and drifted

---
 src/cssrlib/rtcm.py | 47 ++++++++++++---------------------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 02500de..f83cb65 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4480,57 +4480,34 @@ class rtcme(cssre, rtcmUtil):
         grid = self.grid[self.grid['nid'] == self.inet]
         self.ng = grid.shape[0]
 
-        if self.gtype == 0:  # grid type 0
-            gid, ofst, lat, lon, alt = grid[0]
+        # points are relative to the encoded preceding point
+        lat_i = [round(p['lat']/1e-3) for p in grid]
+        lon_i = [round(p['lon']/1e-3) for p in grid]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
-            alt_i = int((alt+1000)/12.5)
+        if self.gtype == 0:  # grid type 0
+            alt_i = [round((p['alt']+1000)/12.5) for p in grid]
 
             # Latitude of Reference Point DF+024
             # Longitude of Reference Point DF+025
             # Ellipsoidal Height of Reference Point DF+026
             # Number of Relative Points: DF+027
-            bs.pack_into('s18s19u10u12u8', msg, i, lat_i, lon_i, alt_i,
-                         self.ofst, self.ng-1)
+            bs.pack_into('s18s19u10u12u8', msg, i, lat_i[0], lon_i[0],
+                         alt_i[0], self.ofst, self.ng-1)
             i += 67
 
             for k in range(1, self.ng):
-                gid, ofst, lat_, lon_, alt_ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                dalt = alt_-alt
-                lat = lat_
-                lon = lon_
-                alt = alt_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
-                dalt_i = int(dalt/12.5)
-
-                bs.pack_into('s13s14s9', msg, i, dlat_i, dlon_i, dalt_i)
+                bs.pack_into('s13s14s9', msg, i, lat_i[k]-lat_i[k-1],
+                             lon_i[k]-lon_i[k-1], alt_i[k]-alt_i[k-1])
                 i += 36
 
         elif self.gtype == 1:  # grid type 1
-            gid, ofst, lat, lon, alt = grid[0]
-
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
-
-            bs.pack_into('s18s19u12u8', msg, i, lat_i, lon_i,
+            bs.pack_into('s18s19u12u8', msg, i, lat_i[0], lon_i[0],
                          self.ofst, self.ng-1)
             i += 57
 
             for k in range(1, self.ng):
-                gid, ofst, lat_, lon_, _ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                lat = lat_
-                lon = lon_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
-                bs.pack_into('s13s14', msg, i, dlat_i, dlon_i)
+                bs.pack_into('s13s14', msg, i, lat_i[k]-lat_i[k-1],
+                             lon_i[k]-lon_i[k-1])
                 i += 27
 
         elif self.gtype == 2:  # grid type 2
-- 
2.43.0


From b709d087116af59d8d6d7691775fca7d821b957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 168/219] fix: RTCM SSR regional ionosphere: order of
 satellites, higher order terms and rounding

---
 src/cssrlib/rtcm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f83cb65..b70d6db 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4920,6 +4920,7 @@ class rtcme(cssre, rtcmUtil):
             if stype < self.lc[inet].stype[sat_]:
                 stype = self.lc[inet].stype[sat_]
 
+        sat = [sat_ for _, sat_ in sorted(zip(svid, sat))]  # order of mask
         satmask = self.encode_mask(svid, 64)
         bs.pack_into('u64', msg, i, satmask)
         i += 64
@@ -4966,12 +4967,13 @@ class rtcme(cssre, rtcmUtil):
                 ci = self.lc[inet].ci[sat_]
                 for j in range(ofst, ofst+ng):
                     dstec = self.lc[inet].dstec[sat_][j]
-                    if np.abs(ci[3]) > 0:
+                    if len(ci) > 3 and np.any(ci[3:]):
                         dlat = grid[j]['lat']-lat0
                         dlon = grid[j]['lon']-lon0
-                        dstec += [dlat*dlon, dlat**2, dlon**2]@ci[3:]
+                        c = np.array([dlat*dlon, dlat**2, dlon**2])
+                        dstec += c[:len(ci)-3]@ci[3:]
 
-                    res = int(dstec/scl)
+                    res = self.ival(dstec, rlen, scl)
                     bs.pack_into(fmt, msg, i, res)
                     i += rlen
 
-- 
2.43.0


From f2e2a24d3b88eaacec18334050d4cd7771badfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 169/219] fix: DC reports received by the SLAS decoder were
 dated 1970

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index aae6e3b..1dbe09a 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -128,6 +128,7 @@ class dgpsDec(cssr):
 
     def decode_mt43(self, msg, i):
         """ decode DC report by JMA (TBD) """
+        self.dcr.time = self.time
         i = self.dcr.decode(msg, i)
         return i
 
@@ -137,6 +138,7 @@ class dgpsDec(cssr):
         i += 10
         if self.monlevel >= 1:
             print(f"MT44 DCX sd={sdmt} {sdm}")
+        self.dcx.time = self.time
         i = self.dcx.decode(msg, i)
         i = self.dcx.decode_ext(msg, i)
         return i
-- 
2.43.0


From 21af8ca286d1c090fcc37b13f926c792c21e2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 170/219] fix: JMA reports of maximum priority and priority
 were ignored

---
 src/cssrlib/ewss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 5e9e65f..4dc193f 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -202,7 +202,8 @@ class jmaDec(ewsDec):
     def __init__(self, bdir='../data/ewss/jma/', year=0):
         super().__init__(bdir=bdir, year=year)
 
-        self.rc_m_t = {3: 'Regular', 7: 'Test'}
+        self.rc_m_t = {1: 'Maximum Priority', 2: 'Priority',
+                       3: 'Regular', 7: 'Test'}
         self.dc_m_t = {1: 'JMA Earthquake',
                        2: 'JMA Hypocenter',
                        3: 'JMA Seismic Intencity',
-- 
2.43.0


From 3e204551ef8812eaaa8a1086ba9848c63e9144b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 171/219] fix: year and month of JMA reports and events at the
 turn of a year or month

---
 src/cssrlib/ewss.py | 96 +++++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 55 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 4dc193f..7c154ca 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -16,7 +16,7 @@ Emergency Warning Satellite Service (EWSS) Decoder
 
 import bitstruct as bs
 from cssrlib.gnss import time2str, epoch2time, time2epoch, timeadd, \
-    time2gpst, gpst2time, utc2gpst, gtime_t
+    time2gpst, gpst2time, utc2gpst, gtime_t, timediff
 from enum import IntEnum
 import json
 import numpy as np
@@ -270,6 +270,29 @@ class jmaDec(ewsDec):
         self.params = None
         self.vn = -1  # version
 
+    def report_time(self, month, day, hour, minute):
+        """ report time in the year closest to the current time """
+        y = time2epoch(self.time)[0]
+        t = min([epoch2time([y+k, month, day, hour, minute, 0.0])
+                 for k in (0, -1, 1)],
+                key=lambda t: abs(timediff(t, self.time)))
+        self.year = int(time2epoch(t)[0])
+        self.month = month
+        return t
+
+    def event_time(self, day, hour, minute):
+        """ time of the day of month closest to the report time """
+        t = epoch2time([self.year, self.month, day, hour, minute, 0.0])
+        for k in (-1, 1):
+            m = self.month+k
+            year, month = self.year+(m-1)//12, (m-1) % 12+1
+            t_ = epoch2time([year, month, day, hour, minute, 0.0])
+            if time2epoch(t_)[2] == day and (
+                    time2epoch(t)[2] != day or
+                    abs(timediff(t_, self.ta)) < abs(timediff(t, self.ta))):
+                t = t_
+        return t
+
     def decode_jma_earthquake(self, msg, i):
         """ JMA Earthquake """
         month, day, hour, minute = bs.unpack_from('u4u5u5u6', msg, i)
@@ -332,11 +355,8 @@ class jmaDec(ewsDec):
                 s_ += self.pre_t[reg]+" "
             print(s_)
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(d1, h1, m1)
 
         self.params = []
         self.params.append(reg_)
@@ -391,10 +411,7 @@ class jmaDec(ewsDec):
             print(f"depth={de}km mag={ma:.1f}")
             print(f"epicenter:{self.ep_t[ep]} lat {lat:.4f} lon {lon:.4f}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         self.pos = [lat, lon]
 
@@ -437,11 +454,8 @@ class jmaDec(ewsDec):
             for k, reg in enumerate(reg_):
                 print(f"{self.mag_i_t[es_[k]]} {self.pre_i_t[reg]}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(d1, h1, m1)
 
         self.params = []
         self.params.append(es_)
@@ -477,10 +491,7 @@ class jmaDec(ewsDec):
             if self.pidx == (1 << pm)-1:
                 print(self.msg.decode('utf-8'))
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         self.params = []
         self.params.append(txt)
@@ -517,10 +528,7 @@ class jmaDec(ewsDec):
             if dw > 0 and dw in self.dw_t:
                 print(f"{self.dw_w_t[dw]}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         self.tb = []
         self.params = []
@@ -579,10 +587,7 @@ class jmaDec(ewsDec):
                 f"NP Tsunami ({self.it}) {month:2d}/{day:02d} " +
                 f"{hour:2d}:{minute:02d}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         return i
 
@@ -617,11 +622,8 @@ class jmaDec(ewsDec):
             for reg in reg_:
                 print(self.reg_v_t[reg])
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(d1, h1, m1)
 
         self.params = [du, dw, vo]
         self.params.append(reg_)
@@ -659,11 +661,8 @@ class jmaDec(ewsDec):
                 if self.monlevel > 0:
                     print(f"{ho}h {dw_} {reg_}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(d1, h1, m1)
 
         i += 15
         self.vn = bs.unpack_from('u6', msg, i)[0]
@@ -696,10 +695,7 @@ class jmaDec(ewsDec):
             if self.monlevel > 0:
                 print(f"{self.ww_t[ww]} {self.reg_ww_t[pl]}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         i += 14  # spare 2
         self.vn = bs.unpack_from('u6', msg, i)[0]
@@ -732,10 +728,7 @@ class jmaDec(ewsDec):
 
         i += 29
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         self.vn = bs.unpack_from('u6', msg, i)[0]
         i += 12
@@ -786,12 +779,8 @@ class jmaDec(ewsDec):
                   f"{month}/{d1} {h1:2d}:{m1:02d} {self.dt_tp_t[dt]} {du}h " +
                   f"lat={lat:.4f} lon={lon:.4f} pr={pr} w1={w1} w2={w2}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = month
-
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(d1, h1, m1)
 
         self.pos = np.array([lat, lon])
         self.params = [dt, du, tn, sr, ic, pr, w1, w2]
@@ -807,10 +796,7 @@ class jmaDec(ewsDec):
         self.it = bs.unpack_from('u2', msg, i)[0]
         i += 12
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = month
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         if self.monlevel > 0:
             print(f"Manine ({self.itype_t[self.it]}) " +
-- 
2.43.0


From c65b5f030405d16f8db1060c40fe2ba2dabeb297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 172/219] fix: arrival times of JMA tsunami reports

---
 src/cssrlib/ewss.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 7c154ca..ec7f476 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -544,7 +544,8 @@ class jmaDec(ewsDec):
             if d == 0 and h == 0 and m == 0 and th == 0 and reg == 0:
                 continue
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            # d: 0: day of the report, 1: next day
+            tb = epoch2time([self.year, month, day+d, h, m, 0.0])
             self.tb.append(tb)
 
             self.params.append([th, reg])
@@ -564,6 +565,8 @@ class jmaDec(ewsDec):
         self.it, _, tp = bs.unpack_from('u2u10u3', msg, i)
         i += 15
 
+        self.ta = self.report_time(month, day, hour, minute)
+
         self.tb = []
         self.params = []
         self.params.append(tp)
@@ -574,7 +577,8 @@ class jmaDec(ewsDec):
             th, reg = bs.unpack_from('u9u7', msg, i)
             i += 16
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            # d: 0: day of the report, 1: next day
+            tb = epoch2time([self.year, month, day+d, h, m, 0.0])
             self.tb.append(tb)
             self.params.append([th, reg])
 
@@ -587,8 +591,6 @@ class jmaDec(ewsDec):
                 f"NP Tsunami ({self.it}) {month:2d}/{day:02d} " +
                 f"{hour:2d}:{minute:02d}")
 
-        self.ta = self.report_time(month, day, hour, minute)
-
         return i
 
     def decode_jma_volcano(self, msg, i):
-- 
2.43.0


From 36db582e159246136093c82458fc93b85872a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 173/219] fix: CAMF messages with details of most hazards
 failed with AttributeError

---
 src/cssrlib/ewss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index ec7f476..abfc033 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1561,7 +1561,7 @@ class camfDec(ewsDec):
                 d16i = bs.unpack_from('u3', msg, i)[0]
                 self.d16 = self.d16_t[d16i]
 
-            elif hcat == THazard.WINDCHILL:  # Wind chill/frost
+            elif hcat == THazard.WIND_CHILL:  # Wind chill/frost
                 d8i, d6i = bs.unpack_from('u4u4', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d6 = self.d6_t[d6i]
@@ -1578,7 +1578,7 @@ class camfDec(ewsDec):
                 self.d17 = self.d17_t[d17i]
                 self.d13 = self.d13_t[d13i]
 
-            elif hcat == THazard.SNOWSTORM:  # Snow storm/blizzard
+            elif hcat == THazard.SNOW_STORM:  # Snow storm/blizzard
                 d13i, d8i = bs.unpack_from('u4u4', msg, i)
                 self.d13 = self.d13_t[d13i]
                 self.d8 = self.d8_t[d8i]
@@ -1592,7 +1592,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.ASH_FALL:  # Ash fall
                 d20i = bs.unpack_from('u3', msg, i)[0]
                 self.d20 = self.d20_t[d20i]
-            elif hcat == THazard.WINDSURGE:  # Wind/wave/storm surge
+            elif hcat == THazard.WIND_SURGE:  # Wind/wave/storm surge
                 d8i, d5i = bs.unpack_from('u4u3', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d5 = self.d5_t[d5i]
@@ -1602,7 +1602,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.TERRORISM:  # Terrorism
                 d22i = bs.unpack_from('u3', msg, i)[0]
                 self.d22 = self.d22_t[d22i]
-            elif hcat == THazard.FOREST_FIRE:  # Forest fire / risk of fire
+            elif hcat == THazard.RISK_OF_FIRE:  # Forest fire / risk of fire
                 d23i = bs.unpack_from('u3', msg, i)[0]
                 self.d23 = self.d23_t[d23i]
             elif hcat == THazard.CONTAMINATED_WATER:
-- 
2.43.0


From ca529d24b80568f9371c513fe735fc0a694c0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 174/219] fix: CAMF hazard onset was a week late for messages
 received on Sunday

---
 src/cssrlib/ewss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index abfc033..9aea5dc 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1379,7 +1379,9 @@ class camfDec(ewsDec):
         # wn: 0:current week, 1: next week
         # tow: 1:mon 00:00, 2:mon 00:01, 3:mon 00:02
         # .. sun 23:59
-        week, _ = time2gpst(self.time)
+        week, tow_ = time2gpst(self.time)
+        if tow_ < 86400:  # the week of the message starts on Monday
+            week -= 1
         week += wn
 
         tow = (tow-1)*60+86400  # sec from sun
-- 
2.43.0


From 8bf84cc0a8523c301a1f1deabd0d0f60a5454e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 175/219] fix: log of CAMF messages with international guidance
 failed

---
 src/cssrlib/ewss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 9aea5dc..9874fb3 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1402,12 +1402,14 @@ class camfDec(ewsDec):
         self.sel, self.ver = bs.unpack_from('u1u3', msg, i)
         i += 4
 
+        inst, info = 0, 0
         if self.sel == 0:  # international (EU)
             ia, ib = bs.unpack_from('u5u5', msg, i)
             # List A: General required action
             # List B: Monitoring + Required action
             self.gmsg_a = self.list_a[ia]
             self.gmsg_b = self.list_b[ib]
+            s = f"{self.gmsg_a} {self.gmsg_b}"
         else:  # 1:country/region (Japan..)
             if self.regi == 0b001101111:  # Japan
                 inst, info = bs.unpack_from('u2u8', msg, i)
-- 
2.43.0


From c3d53fa93f5591d35896e6cbdba56e7456ef58d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 176/219] fix: unknown municipality of a J-Alert message raised
 an error

---
 src/cssrlib/ewss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 9874fb3..b067ac1 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1322,7 +1322,10 @@ class camfDec(ewsDec):
                     mc = bs.unpack_from('u16', msg, i)[0]
                     i += 16
                     if mc > 0:
-                        j = np.where(self.mc_t['tiiki-code'] == mc)[0][0]
+                        j = np.where(self.mc_t['tiiki-code'] == mc)[0]
+                        if len(j) == 0:  # unknown municipality
+                            continue
+                        j = j[0]
                         si = self.mc_t['ken-name'][j]
                         if pd.isna(self.mc_t['sityouson-name1'][j]) == False:
                             si += self.mc_t['sityouson-name1'][j]
-- 
2.43.0


From fa4a6ac8234b56d6789a4020b8908a17056aca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 177/219] fix: occurrence time of JMA hypocenter reports was
 not set

---
 src/cssrlib/ewss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index b067ac1..fa7894b 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -413,6 +413,8 @@ class jmaDec(ewsDec):
 
         self.ta = self.report_time(month, day, hour, minute)
 
+        self.tb = self.event_time(d1, h1, m1)
+
         self.pos = [lat, lon]
 
         self.params = []
-- 
2.43.0


From 265b136a4d0c5c3228d854944c7b9fa4c8a66f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 178/219] fix: pages of different JMA Nankai Trough messages
 were put together

---
 src/cssrlib/ewss.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index fa7894b..1630cce 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -263,7 +263,8 @@ class jmaDec(ewsDec):
         self.reg_m_t = self.load_msg('tab4_1_2_53.txt')
 
         self.pidx = 0
-        self.msg = bytearray(512)
+        self.msg = bytearray(63*18)
+        self.msg_id = None
 
         self.te = gtime_t()
         self.pos = np.array([])
@@ -480,8 +481,16 @@ class jmaDec(ewsDec):
         pn, pm = bs.unpack_from('u6u6', msg, i)
         i += 13
 
-        self.pidx |= 1 << (pn-1)
-        self.msg[(pn-1)*18:pn*18] = txt
+        # pages of different messages are not put together
+        msg_id = (month, day, hour, minute, is_, pm)
+        if msg_id != self.msg_id:
+            self.msg_id = msg_id
+            self.pidx = 0
+            self.msg = bytearray(63*18)
+
+        if pn > 0:
+            self.pidx |= 1 << (pn-1)
+            self.msg[(pn-1)*18:pn*18] = txt
 
         self.vn = bs.unpack_from('u6', msg, i)[0]
         i += 12
-- 
2.43.0


From 1299733b18fb40d95e5290e1eacc0b8dc083e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 179/219] fix: cycle slips in epochs with too few satellites
 were lost

---
 src/cssrlib/pppssr.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index f3b47a3..748d64d 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1408,10 +1408,6 @@ class pppos():
 
         self.nav.nsat[1] = nsat
 
-        if nsat < 6:
-            print(" too few satellites < 6: nsat={:d}".format(nsat))
-            return
-
         # Editing of observations
         #
         sat_ed = self.qcedit(obs, rs, dts, svh)
@@ -1433,7 +1429,14 @@ class pppos():
         self.nav.nsat[2] = ns
 
         if ns < 6:
-            print(" too few satellites < 6: ns={:d}".format(ns))
+            if nsat < 6:
+                print(" too few satellites < 6: nsat={:d}".format(nsat))
+            else:
+                print(" too few satellites < 6: ns={:d}".format(ns))
+            # cycle slips and motion of this epoch must not be lost
+            self.udstate(obs_)
+            self.nav.t = obs.t
+            self.nav.smode = 0
             return
 
         # Kalman filter time propagation, initialization of ambiguities
-- 
2.43.0


From e0e52dd9215646b220d982f450ddc98d849f78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 180/219] fix: epochs without satellites were reported with the
 state of the last solution

---
 src/cssrlib/pppssr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 748d64d..d9e973c 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1390,6 +1390,7 @@ class pppos():
         # Skip empty epochs
         #
         if len(obs.sat) == 0:
+            self.nav.smode = 0
             return
 
         self.nav.nsat[0] = len(obs.sat)
-- 
2.43.0


From f76da01961d04943f1308ce29527048921b1cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 181/219] fix: first epoch of standalone positioning was
 processed without the group delay, missing epochs kept the mode of the last
 one

---
 src/cssrlib/pntpos.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index a795c93..9b8378c 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -477,10 +477,13 @@ class stdpos(pppos):
         standalone positioning
         """
         if len(obs.sat) == 0:
+            self.nav.smode = 0
             return
 
+        # 1: standalone, 2: DGPS (selects the group delay and the weights)
+        self.nav.smode = 1 if cs is None else 2
+
         if cs is not None and cs.cssrmode == sCSSRTYPE.DGPS:
-            self.nav.smode = 2  # DGPS
             self.nav.baseline = cs.set_dgps_corr(self.nav.x[0:3])
 
         if cs is not None and cs.cssrmode in \
@@ -495,6 +498,7 @@ class stdpos(pppos):
         rs, vs, dts, svh, nsat = satposs(obs, self.nav, cs=cs, orb=orb)
 
         if nsat < 4:
+            self.nav.smode = 0
             print(" too few satellites < 4: nsat={:d}".format(nsat))
             return
 
@@ -519,6 +523,7 @@ class stdpos(pppos):
         if ns < 4:
             self.nav.t = obs.t
             self.nsat = ns
+            self.nav.smode = 0
             print(" too few satellites < 4: ns={:d}".format(ns))
             return
 
@@ -581,9 +586,6 @@ class stdpos(pppos):
         self.nav.x = xp
         self.nav.P = Pp
 
-        self.nav.smode = 1 if cs is None else 2  # standalone positioning
-        # self.nav.smode = 1  # 4: fixed ambiguities, 5: float ambiguities
-
         # Store epoch for solution
         #
         self.nav.t = obs.t
-- 
2.43.0


From fd46cc2b54886126a9bd001b6be06beb0e4e4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 182/219] fix: ANTEX offsets of -1 m and below in the first
 column lost their sign

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 9e4200b..89ec0a2 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -552,7 +552,7 @@ class atxdec():
                     sys = uGNSS.NONE
                     sig = rSigRnx()
                 elif "NORTH / EAST / UP" in line[60:]:  # unit [mm]
-                    neu = [float(x) for x in line[3:30].split()]
+                    neu = [float(x) for x in line[0:30].split()]
                     pcv.off.update({sig: np.zeros(3)})
                     # For satellite use XYZ, for receiver use ENU
                     pcv.off[sig][0] = neu[0] if pcv.sat is not None else neu[1]
-- 
2.43.0


From fcde0210bb30563aebbedf6305edeb7b72ae56b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 183/219] fix: corrections decoded with set_time() were dated
 from the start of the day instead of the hour

---
 src/cssrlib/cssr_has.py |  5 +++--
 src/cssrlib/cssr_mdc.py |  2 +-
 src/cssrlib/cssrlib.py  | 19 ++++++++++++++++---
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 2ce139c..7b150a7 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -10,7 +10,7 @@ import numpy as np
 import bitstruct as bs
 import galois
 from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, sCType
-from cssrlib.gnss import gpst2time
+from cssrlib.gnss import gpst2time, time2gpst
 from binascii import unhexlify
 
 
@@ -87,7 +87,8 @@ class cssr_has(cssr):
         if self.tow0 >= 0:
             self.tow = self.tow0+self.toh
             if self.week >= 0:
-                self.time = gpst2time(self.week, self.tow)
+                self.time = self.adjust_tref(gpst2time(self.week, self.tow))
+                _, self.tow = time2gpst(self.time)
 
         head = {'udi': udi, 'mi': 0, 'iodssr': self.iodssr}
         return head, i
diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 39bd031..b91ff84 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -227,7 +227,7 @@ class cssr_mdc(cssr):
         self.lc[inet].ci = ci
         self.lc[inet].stec_quality = qi
 
-        t0 = gpst2time(self.week, self.tow0+dtow)
+        t0 = self.adjust_tref(gpst2time(self.week, self.tow0+dtow))
         self.set_t0(inet, 0, sCType.STEC, t0)
         self.lc[inet].cstat |= (1 << sCType.STEC)
 
diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index aa27979..864d817 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -14,7 +14,7 @@ import numpy as np
 from enum import IntEnum
 from cssrlib.gnss import gpst2time, rCST, prn2sat, uGNSS, gtime_t, rSigRnx
 from cssrlib.gnss import uSIG, uTYP, sat2prn, time2str, sat2id, timediff
-from cssrlib.gnss import copy_buff, time2gpst, mapfParam
+from cssrlib.gnss import copy_buff, time2gpst, mapfParam, timeadd
 
 
 class sCSSRTYPE(IntEnum):
@@ -274,6 +274,7 @@ class cssr:
         self.monlevel = 0
         self.week = -1
         self.tow0 = -1
+        self.tref = None  # observation time given by set_time()
         self.iodssr = -1
         self.mask_id = -1
         self.mask_id_clk = -1
@@ -476,11 +477,18 @@ class cssr:
     def set_time(self, t):
         """ set observation time (week, tow) """
         self.time0 = t
+        self.tref = t
         week, tow = time2gpst(t)
         self.week = week
-        self.tow0 = tow//86400*86400
+        self.tow0 = tow//3600*3600
         return week, tow
 
+    def adjust_tref(self, time, dt=3600.0):
+        """ adjust time given modulo dt to the one nearest to set_time() """
+        if self.tref is None:
+            return time
+        return timeadd(time, -dt*round(timediff(time, self.tref)/dt))
+
     def sval(self, u, n, scl):
         """ calculate signed value based on n-bit int, lsb """
         invalid = -2**(n-1)
@@ -551,13 +559,18 @@ class cssr:
             self.tow = bs.unpack_from('u20', msg, i)[0]
             i += 20
             self.tow0 = self.tow//3600*3600
+            dt = rCST.WEEK_SEC
         else:
             dtow = bs.unpack_from('u12', msg, i)[0]
             i += 12
             if self.tow0 >= 0:
                 self.tow = self.tow0+dtow
+            dt = 3600.0
         if self.week >= 0:
-            self.time = gpst2time(self.week, self.tow)
+            self.time = self.adjust_tref(gpst2time(self.week, self.tow), dt)
+            _, self.tow = time2gpst(self.time)
+            if st == sCSSR.MASK and self.tref is not None:
+                self.tref = self.time
         fmt = 'u4u1u4'
         names = ['udi', 'mi', 'iodssr']
         dfm = bs.unpack_from_dict(fmt, names, msg, i)
-- 
2.43.0


From 3e191891ede3463ff90a52676f430810cdfefe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 184/219] fix: B2b-PPP messages were dated with the GPS week
 when set_time() is used

---
 src/cssrlib/cssr_bds.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index ab1859b..55e60bb 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -8,7 +8,7 @@ Precise Point Positioning Service Signal PPP-B2b (Version 1.0), 2020
 import numpy as np
 import bitstruct as bs
 from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, sGNSS, prn2sat, sCType
-from cssrlib.gnss import bdt2time, bdt2gpst, uGNSS, uSIG, uTYP, rSigRnx
+from cssrlib.gnss import bdt2time, bdt2gpst, time2bdt, gpst2bdt, uGNSS, uSIG, uTYP, rSigRnx
 
 
 class cssr_bds(cssr):
@@ -95,6 +95,13 @@ class cssr_bds(cssr):
             sys = uGNSS.GLO
         return sys, prn
 
+    def set_time(self, t):
+        """ set observation time, week and time of day refer to BDT """
+        week, tow = super().set_time(t)
+        self.week, towb = time2bdt(gpst2bdt(t))
+        self.tow0 = towb//86400*86400
+        return week, tow
+
     def decode_head(self, msg, i, st=-1):
         self.tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
         i += 23
@@ -105,7 +112,8 @@ class cssr_bds(cssr):
         if self.tow0 >= 0:
             self.tow = self.tow0+self.tod
             if self.week >= 0:
-                self.time = bdt2gpst(bdt2time(self.week, self.tow))
+                self.time = self.adjust_tref(
+                    bdt2gpst(bdt2time(self.week, self.tow)), 86400.0)
 
         head = {'udi': 0, 'mi': 0, 'iodssr': iodssr}
         return head, i
-- 
2.43.0


From 842be10d682bf4fc325429d46381e094f4c34199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 185/219] fix: RTCM messages around the week turn were dated
 one week off

---
 src/cssrlib/rtcm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index b70d6db..0dd08db 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1021,7 +1021,8 @@ class rtcm(cssr, rtcmUtil):
         else:
             self.tow = bs.unpack_from('u20', msg, i)[0]   
             i += 20               
-            self.time = gpst2time(self.week, self.tow)
+            self.time = self.adjust_tref(gpst2time(self.week, self.tow),
+                                         rCST.WEEK_SEC)
 
         if self.subtype not in [sRTCM.SSR_PBIAS_EX]:
             udi, mi = bs.unpack_from('u4b1', msg, i)
@@ -1521,6 +1522,8 @@ class rtcm(cssr, rtcmUtil):
             time = utc2gpst(glo2time(self.time, tow))
         else:
             time = gpst2time(self.week, tow)
+        if sys != uGNSS.GLO:
+            time = self.adjust_tref(time, rCST.WEEK_SEC)
         return i, sys, time
 
     def decode_nrtk_residual(self, msg, i=0):
@@ -1567,7 +1570,8 @@ class rtcm(cssr, rtcmUtil):
                 return t
             else:
                 self.tow = tow
-                return gpst2time(self.week, self.tow)
+                return self.adjust_tref(gpst2time(self.week, self.tow),
+                                        rCST.WEEK_SEC)
 
         sys, nrtk = self.nrtktype(self.msgtype)
         if nrtk > 0:
@@ -2311,7 +2315,8 @@ class rtcm(cssr, rtcmUtil):
             time = gpst2time(week, tow)
         # begin and end of week of GLONASS and BDS differ from GPS
         week_, _ = time2gpst(time)
-        return timeadd(time, (week-week_)*604800.0), tow
+        time = timeadd(time, (week-week_)*604800.0)
+        return self.adjust_tref(time, rCST.WEEK_SEC), tow
 
     def decode_msm(self, msg, i):
         """ decode MSM message """
-- 
2.43.0


From 2229ffc24374bbae68d7654f0d063cc03b5a38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 186/219] fix: GLONASS epoch times of RTCM were not resolved
 with set_time()

---
 src/cssrlib/rtcm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 0dd08db..bf92a51 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1009,13 +1009,18 @@ class rtcm(cssr, rtcmUtil):
         self.dlen = len_+6
         return cs == 0
 
+    def decode_glo_tod(self, tod):
+        """ time from GLONASS time of day nearest to set_time() """
+        tref = self.time if self.tref is None else self.tref
+        return utc2gpst(glo2time(tref, tod))
+
     def decode_head(self, msg, i, sys=uGNSS.NONE):
         """ decode the header of ssr message """
         
         if sys==uGNSS.GLO and self.msgtype != 4076:
             self.tod = bs.unpack_from('u17', msg, i)[0]     
             i += 17
-            self.time = utc2gpst(glo2time(self.time, self.tod))
+            self.time = self.decode_glo_tod(self.tod)
             if self.workaround_sc134:
                 self.time = timeadd(self.time, -36) # work-around
         else:
@@ -1519,7 +1524,7 @@ class rtcm(cssr, rtcmUtil):
             week, _ = time2bdt(gpst2bdt(gpst2time(self.week, tow)))
             time = bdt2gpst(bdt2time(week, tow))
         elif sys == uGNSS.GLO:
-            time = utc2gpst(glo2time(self.time, tow))
+            time = self.decode_glo_tod(tow)
         else:
             time = gpst2time(self.week, tow)
         if sys != uGNSS.GLO:
@@ -1564,7 +1569,7 @@ class rtcm(cssr, rtcmUtil):
             sz = 20 if self.msgtype == 4076 or sys != uGNSS.GLO else 17
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
-                t = utc2gpst(glo2time(self.time, tow))
+                t = self.decode_glo_tod(tow)
                 if self.workaround_sc134:
                     t = timeadd(t, -36) # work-around on sc134
                 return t
-- 
2.43.0


From 7294be967497b2937bd7ba40163ddd6676b8f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 187/219] fix: orbit and clock rates of RTCM and IGS SSR were
 ignored

---
 src/cssrlib/ephemeris.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 7e9c3a7..5dc0f2c 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -19,6 +19,33 @@ MAXDTOE_t = {uGNSS.GPS: 7201.0, uGNSS.GAL: 14400.0, uGNSS.QZS: 7201.0,
              uGNSS.SBS: 360.0}
 
 
+# SSR update interval [s]
+UDI_t = (1.0, 2.0, 5.0, 10.0, 15.0, 30.0, 60.0, 120.0, 240.0, 300.0, 600.0,
+         900.0, 1800.0, 3600.0, 7200.0, 10800.0)
+
+
+def ssr_rate(t, sat, cs):
+    """ change of RTCM/IGS SSR corrections since their reference time """
+    lc = cs.lc[0]
+    dorb, dclk = np.zeros(3), 0.0
+    if cs.cssrmode not in (sc.RTCM3_SSR, sc.IGS_SSR):
+        return dorb, dclk
+
+    def age(ctype):
+        # reference time is in the middle of the update interval
+        udi = cs.udi[ctype]
+        tr = UDI_t[udi]/2.0 if udi > 0 else 0.0
+        return timediff(t, lc.t0[sat][ctype]) - tr
+
+    if lc.ddorb is not None and sat in lc.ddorb:
+        dorb = lc.ddorb[sat]*age(sCType.ORBIT)
+    if lc.ddclk is not None and sat in lc.ddclk:
+        dt = age(sCType.CLOCK)
+        dclk = lc.ddclk[sat]*dt + lc.dddclk[sat]*dt**2
+
+    return dorb, dclk
+
+
 def findeph(nav, t, sat, iode=-1, mode=0):
     """ find ephemeris for sat """
     sys, _ = sat2prn(sat)
@@ -408,6 +435,10 @@ def satpos(sat, t, nav, cs=None, orb=None):
                     dclk += cs.lc[0].ddft[sat] * \
                         (timediff(t, cs.lc[0].t0[sat][sCType.CLOCK]))
 
+                drate = ssr_rate(t, sat, cs)
+                dorb = dorb + drate[0]
+                dclk = dclk + drate[1]
+
             if np.isnan(dclk) or np.isnan(dorb@dorb):
                 return rs, vs, dts, svh
 
@@ -645,6 +676,10 @@ def satposs(obs, nav, cs=None, orb=None):
                         dclk += cs.lc[0].ddft[sat] * \
                             (timediff(obs.t, cs.lc[0].t0[sat][sCType.CLOCK]))
 
+                    drate = ssr_rate(obs.t, sat, cs)
+                    dorb = dorb + drate[0]
+                    dclk = dclk + drate[1]
+
                 if np.isnan(dclk) or np.isnan(dorb@dorb):
                     continue
 
-- 
2.43.0


From 2285cea34e9bb511126e3c65bb42f1753bc548a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 188/219] fix: rates of expired PVS corrections were still
 applied

---
 src/cssrlib/cssr_pvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssr_pvs.py b/src/cssrlib/cssr_pvs.py
index 6b2550b..5ae0743 100644
--- a/src/cssrlib/cssr_pvs.py
+++ b/src/cssrlib/cssr_pvs.py
@@ -99,10 +99,12 @@ class cssr_pvs(cssr):
             if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
+                self.lc[0].ddft[sat] = 0.0
             if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
                     self.tmax[sCType.ORBIT]:
                 self.lc[0].iode[sat] = -1
                 self.lc[0].dorb[sat] = np.zeros(3)
+                self.lc[0].dvel[sat] = np.zeros(3)
 
     def decode_cssr_orb(self, msg, i, inet=0):
         """ Types 32 clock-ephemeris correction and covariance matrix """
-- 
2.43.0


From 0f09fcf132cfb2ae53cac438aa5348ce488dfdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 189/219] fix: standalone positions were missing in the figures

---
 src/cssrlib/plot.py | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/cssrlib/plot.py b/src/cssrlib/plot.py
index 17f75ae..fde9de8 100644
--- a/src/cssrlib/plot.py
+++ b/src/cssrlib/plot.py
@@ -114,6 +114,16 @@ def draw_circle(ax, ccrs, p, col, nc=10, alpha=0.5):
             transform=ccrs)
 
 
+def plot_mode(x, y, smode, **kwargs):
+    """ plot points with a color for each solution mode """
+    mode_t = {0: ('r.', 'none'), 1: ('b.', 'single'), 2: ('y.', 'dgps'),
+              5: ('y.', 'float'), 4: ('g.', 'fix')}
+    for mode, (fmt, lbl) in mode_t.items():
+        idx = np.where(smode == mode)[0]
+        if len(idx) > 0:
+            plt.plot(x[idx], y[idx], fmt, label=lbl, **kwargs)
+
+
 def plot_enu(t, enu, smode=None, ztd=None, ylim=1.0, ylim_v=None, figtype=1):
     """ plot ENU coordinates """
 
@@ -122,14 +132,6 @@ def plot_enu(t, enu, smode=None, ztd=None, ylim=1.0, ylim_v=None, figtype=1):
 
     fig = plt.figure(figsize=[7, 9])
     fig.set_rasterized(True)
-    idx2 = np.array([])
-
-    if smode is not None:
-        idx2 = np.where(smode == 2)[0]  # dgps
-        idx4 = np.where(smode == 4)[0]  # fix
-        idx5 = np.where(smode == 5)[0]  # float
-        idx0 = np.where(smode == 0)[0]  # none
-
     if ylim_v is None:
         ylim_v = ylim
 
@@ -141,13 +143,8 @@ def plot_enu(t, enu, smode=None, ztd=None, ylim=1.0, ylim_v=None, figtype=1):
             plt.subplot(nfig, 1, k+1)
             if smode is None:
                 plt.plot(t, enu[:, k])
-            elif len(idx2) > 0:  # DGPS
-                plt.plot(t[idx0], enu[idx0, k], 'r.', label='none')
-                plt.plot(t[idx2], enu[idx2, k], 'y.', label='dgps')
             else:
-                plt.plot(t[idx0], enu[idx0, k], 'r.', label='none')
-                plt.plot(t[idx5], enu[idx5, k], 'y.', label='float')
-                plt.plot(t[idx4], enu[idx4, k], 'g.', label='fix')
+                plot_mode(t, enu[:, k], smode)
 
             plt.ylabel(lbl_t[k])
             plt.grid()
@@ -161,12 +158,7 @@ def plot_enu(t, enu, smode=None, ztd=None, ylim=1.0, ylim_v=None, figtype=1):
             if smode is None:
                 plt.plot(t, ztd*1e2, 'r.', markersize=8, label='none')
             else:
-                plt.plot(t[idx0], ztd[idx0]*1e2, 'r.',
-                         markersize=8, label='none')
-                plt.plot(t[idx5], ztd[idx5]*1e2, 'y.',
-                         markersize=8, label='float')
-                plt.plot(t[idx4], ztd[idx4]*1e2, 'g.',
-                         markersize=8, label='fix')
+                plot_mode(t, ztd*1e2, smode, markersize=8)
 
             plt.ylabel('ZTD [cm]')
             plt.ylim([0, 40])
@@ -181,13 +173,8 @@ def plot_enu(t, enu, smode=None, ztd=None, ylim=1.0, ylim_v=None, figtype=1):
 
         if smode is None:
             plt.plot(enu[:, 0], enu[:, 1])
-        elif len(idx2) > 0:  # DGPS
-            plt.plot(enu[idx0, 0], enu[idx0, 1], 'r.', label='none')
-            plt.plot(enu[idx2, 0], enu[idx2, 1], 'y.', label='dgps')
         else:
-            plt.plot(enu[idx0, 0], enu[idx0, 1], 'r.', label='none')
-            plt.plot(enu[idx5, 0], enu[idx5, 1], 'y.', label='float')
-            plt.plot(enu[idx4, 0], enu[idx4, 1], 'g.', label='fix')
+            plot_mode(enu[:, 0], enu[:, 1], smode)
 
         plt.xlabel('Easting [m]')
         plt.ylabel('Northing [m]')
-- 
2.43.0


From c40a99aa4f55dba1dbe3d032472efe0c2fc6260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 190/219] fix: last satellite was missing in the elevation and
 sky plots

---
 src/cssrlib/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/plot.py b/src/cssrlib/plot.py
index fde9de8..9c1a3ad 100644
--- a/src/cssrlib/plot.py
+++ b/src/cssrlib/plot.py
@@ -34,7 +34,7 @@ def plot_nsat(t, nsat):
 def plot_elv(t, elv, elmask=0, satlist=None):
     """ elevation plot """
     if satlist is None:
-        satlist = range(1, uGNSS.MAXSAT)
+        satlist = range(1, uGNSS.MAXSAT+1)
     nsat = np.zeros((len(t), uGNSS.GNSSMAX), dtype=int)
     col_tbl = 'bygmkrc'
     plt.figure('elevation')
@@ -70,7 +70,7 @@ def skyplot(azm, elv, elmask=0, satlist=None):
     col_tbl = 'bygmkrc'
 
     if satlist is None:
-        satlist = range(1, uGNSS.MAXSAT)
+        satlist = range(1, uGNSS.MAXSAT+1)
 
     nsat = 0
     for k, sat in enumerate(satlist):
-- 
2.43.0


From 7821c46fb03a637bf12f5e8e239bfa3693a7ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:10 +0000
Subject: [PATCH 191/219] fix: week of Galileo almanac was wrong if issued in
 another week

---
 src/cssrlib/ephemeris.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 5dc0f2c..594f2a8 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -797,7 +797,6 @@ def loadXmlAlmanac(fname, sys=uGNSS.GAL):
     ep = [d.year, d.month, d.day, d.hour, d.minute, d.second]
     tref = epoch2time(ep)
     week_ref, tow_ref = time2gst(tref)
-    week_ref = week_ref//4*4
 
     h = root.find('body').find('Almanacs')
     for sv in h.findall('svAlmanac'):
@@ -827,9 +826,11 @@ def loadXmlAlmanac(fname, sys=uGNSS.GAL):
         alm.af1 = float(alm_.find('af1').text)
         alm.ioda = float(alm_.find('iod').text)
         alm.toas = float(alm_.find('t0a').text)
-        wna = float(alm_.find('wna').text)
+        wna = int(alm_.find('wna').text)
 
-        alm.toa = gst2time(week_ref + wna, alm.toas)
+        # two-bit week number nearest to the issue date
+        dw = (wna-week_ref+2) % 4-2
+        alm.toa = gst2time(week_ref+dw, alm.toas)
         alm.svh = (sts_E5a << 4) | (sts_E5b << 2) | (sts_E1B)
 
         alm_t.append(alm)
-- 
2.43.0


From 6fbe0ac800071010e44372f5ab60905674bb9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:10 +0000
Subject: [PATCH 192/219] fix: positions by almanacs of more than a week ago
 were wrong

---
 src/cssrlib/ephemeris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 594f2a8..fbc7385 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -937,7 +937,7 @@ def alm2pos(t: gtime_t, alm: Alm):
     else:  # GPS,QZS
         mu = rCST.MU_GPS
         omge = rCST.OMGE
-    dt = dtadjust(t, alm.toa)
+    dt = timediff(t, alm.toa)
     n0 = np.sqrt(mu/alm.A**3)
     M = alm.M0+n0*dt
     E = M
-- 
2.43.0


From df3d07f266a736b6143037f0e299bcd4640b858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:24 +0000
Subject: [PATCH 193/219] fix: motion of a receiver was lost in epochs with too
 few usable satellites

---
 src/cssrlib/pntpos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 9b8378c..3446f77 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -521,6 +521,8 @@ class stdpos(pppos):
             ns = len(iu)
 
         if ns < 4:
+            # motion of this epoch must not be lost
+            self.udstate(obs_)
             self.nav.t = obs.t
             self.nsat = ns
             self.nav.smode = 0
-- 
2.43.0


From 901e511b9c84c63e937e64a37ff1d75cecc396de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 194/219] fix: check of validity failed if a satellite of the
 mask had no corrections

---
 src/cssrlib/cssrlib.py | 15 +++++++++------
 src/cssrlib/sbas.py    | 10 ----------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 864d817..7aaed80 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1221,14 +1221,17 @@ class cssr:
 
     def check_validity(self, time):
         """ check validity time of correction """
-        for sat in self.sat_n:
-            if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
+        lc = self.lc[0]
+        for sat, t0 in lc.t0.items():
+            if sat in (lc.dclk or {}) and \
+                    timediff(time, t0[sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
-                self.lc[0].dclk[sat] = 0.0
-            if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
+                lc.dclk[sat] = 0.0
+            if sat in (lc.dorb or {}) and \
+                    timediff(time, t0[sCType.ORBIT]) > \
                     self.tmax[sCType.ORBIT]:
-                self.lc[0].iode[sat] = -1
-                self.lc[0].dorb[sat] = np.zeros(3)
+                lc.iode[sat] = -1
+                lc.dorb[sat] = np.zeros(3)
 
     def out_log(self):
 
diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 4bd14ad..95cb4d0 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -396,16 +396,6 @@ class sbasDec(cssr):
             sat = prn2sat(uGNSS.QZS, prn)
         return sat
 
-    def check_validity(self, time):
-        for sat in self.sat_n:
-            if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
-                    self.tmax[sCType.CLOCK]:
-                self.lc[0].dclk[sat] = 0.0
-            if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
-                    self.tmax[sCType.ORBIT]:
-                self.lc[0].iode[sat] = -1
-                self.lc[0].dorb[sat] = np.zeros(3)
-
     def decode_sbas_mask(self, msg, i):
         """ Type 1 PRN mask message """
         self.sat = []
-- 
2.43.0


From 9bf46bd449c2cea59c78724cc7f34e26e231ae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 195/219] fix: rates of expired corrections were still applied

---
 src/cssrlib/cssrlib.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 7aaed80..6e5a15c 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -237,6 +237,9 @@ class local_corr:
         self.dclk = None
         self.ddclk = None
         self.dddclk = None
+        self.dvel = None
+        self.ddft = None
+        self.dclk_p = None
         self.hclk = None
         self.ura = None
         self.stec = None
@@ -1226,12 +1229,16 @@ class cssr:
             if sat in (lc.dclk or {}) and \
                     timediff(time, t0[sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
-                lc.dclk[sat] = 0.0
+                for v in (lc.dclk, lc.ddclk, lc.dddclk, lc.ddft, lc.dclk_p):
+                    if sat in (v or {}):
+                        v[sat] = 0.0
             if sat in (lc.dorb or {}) and \
                     timediff(time, t0[sCType.ORBIT]) > \
                     self.tmax[sCType.ORBIT]:
                 lc.iode[sat] = -1
-                lc.dorb[sat] = np.zeros(3)
+                for v in (lc.dorb, lc.ddorb, lc.dvel):
+                    if sat in (v or {}):
+                        v[sat] = np.zeros(3)
 
     def out_log(self):
 
-- 
2.43.0


From bfa2d16991bfe828f35daf867ccbb9f7e81e9fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 196/219] fix: decoding of RTCM integrity message 2006 (SIS and
 local error) failed

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index bf92a51..f8cf030 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3638,7 +3638,7 @@ class rtcm(cssr, rtcmUtil):
         # integrity parameter IOD DFi006
         # GNSS Constellation Mask DFi013
         # Time correlation integrity/continuity flag DFi137
-        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)[0]
+        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)
         i += 23
 
         self.integ.iod_ip = iod_ip
-- 
2.43.0


From 1a5ccb88c26099c571a842ca62f4f1449fd32bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 197/219] fix: monitoring status in the report of RTCM
 integrity message 2000 listed the satellites of the satellite mask

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f8cf030..1027573 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1918,8 +1918,8 @@ class rtcm(cssr, rtcmUtil):
                 self.fh.write(" Monitoring Status:\n")
                 for sys in self.integ.mst:
                     self.fh.write(f"  {sys2char(sys)}:")
-                    for sat in self.integ.freq[sys]:
-                        self.fh.write(f" {sat2id(sat)}")
+                    for prn in self.integ.mst[sys]:
+                        self.fh.write(f" {sat2id(prn2sat(sys, prn))}")
                     self.fh.write("\n") 
                         
                 self.fh.write(" Integrity Fault Source:\n")
-- 
2.43.0


From c82e7d6143eb961e8658d4b8ecf583a3889fdcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 198/219] fix: constellation mask of RTCM SSR integrity
 messages was not kept

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 1027573..3379387 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3968,6 +3968,7 @@ class rtcm(cssr, rtcmUtil):
         # 0:GPS,1:GLO,2:GAL,3:BDS,4:QZS,5:IRN
         mask_sys = bs.unpack_from('u16', msg, i)[0]
         i += 16
+        self.integ.mask_sys = mask_sys
 
         sys_t, nsys = self.decode_mask(mask_sys, 16, ofst=0)
         iod_sys = {}
-- 
2.43.0


From cc99973c68ed808cd4471c16898fae879b9be4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 199/219] fix: C/N0 indicator without data was reported as 15
 dB-Hz

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 3379387..3433f8c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -270,9 +270,9 @@ class Integrity():
         cnr = -1
         if idx>0 and idx<20:
             cnr = idx-1
-        elif idx<245:
+        elif idx>=20 and idx<245:
             cnr = 19+(idx-20)*0.2
-        else:
+        elif idx>=245:
             cnr = 64+(idx-245)
         
         return cnr
-- 
2.43.0


From c960fc72f18c8962c5e37bab397219f3d048a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 200/219] fix: RTCM SSR integrity messages were encoded in
 another layout than decoded

---
 src/cssrlib/rtcm.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 3433f8c..33ed964 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -199,6 +199,7 @@ class Integrity():
         self.pid = 0  # augmentation provider id DFi027 (0-4095)
         self.vp = 0  # validity period DFi065 (0-15)
         self.udi = 0  # update rate interval DFi067 (b16)
+        self.aid = 0  # service area id DFi075 (0-1023)
 
         # placeholder for RTCM SSR
         self.pidssr = 0  # SSR provider ID
@@ -4425,25 +4426,27 @@ class rtcme(cssre, rtcmUtil):
         # mask_sys:: DFi013 0:GPS,1:GLO,2:GAL,3:BDS,4:QZS,5:IRN
         mask_sys = self.encode_mask(gnss_t, 16, ofst=0)
 
+        # tow DFi008
         # augmentation service provider id DFi027
-        bs.pack_into('u12', msg, i, self.integ.pid)
-        i += 12
+        bs.pack_into('u30u12', msg, i, round(self.integ.tow*1e3),
+                     self.integ.pid)
+        i += 42
+
+        # validity period DFi065
+        # update rate interval DFi067
+        # service area id DFi075
+        vp = self.integ.vp_r_tbl[int(self.integ.vp)]
+        bs.pack_into('u4u16u10', msg, i, vp, round(self.integ.udi*10),
+                     self.integ.aid)
+        i += 30
 
         # SSR provider id, soluition type, iod
         bs.pack_into('u16u4u4', msg, i, self.pid, self.sid, self.iodssr)
         i += 24
 
-        bs.pack_into('u30', msg, i, self.integ.tow*1e3)  # tow DFi008
-        i += 30
         bs.pack_into('u16', msg, i, mask_sys)  # GNSS constellation mask DFi013
         i += 16
 
-        # validity period DFi065
-        # update rate interval DFi067
-        vp = self.integ.vp_r_tbl[int(self.integ.vp)]
-        bs.pack_into('u4u16', msg, i, vp, self.integ.udi*10)
-        i += 20
-
         for sys in sys_t:
             flag = self.integ.flag[sys]
             sat_t = flag.keys()
-- 
2.43.0


From 766aeec5575d3d2a45f558e2e3e874fa177c011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 201/219] fix: flags in RTCM SSR integrity messages were
 encoded in the order of the store, not of the masks

---
 src/cssrlib/rtcm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 33ed964..4cb0eb2 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4418,7 +4418,9 @@ class rtcme(cssre, rtcmUtil):
     def encode_integrity_ssr(self, msg, i):
         """ RTCM SC-134 SSR integrity message (MT11,12,13) """
 
-        sys_t = self.integ.iod_sys.keys()
+        # order of the masks
+        sys_t = sorted(self.integ.iod_sys.keys(),
+                       key=lambda sys: self.integ.sys_r_tbl[sys])
         gnss_t = []
         for sys in sys_t:
             gnss_t.append(self.integ.sys_r_tbl[sys])
@@ -4449,7 +4451,7 @@ class rtcme(cssre, rtcmUtil):
 
         for sys in sys_t:
             flag = self.integ.flag[sys]
-            sat_t = flag.keys()
+            sat_t = sorted(flag.keys())
             svid_t = []
             for sat in sat_t:
                 sys_, prn = sat2prn(sat)
@@ -4461,9 +4463,9 @@ class rtcme(cssre, rtcmUtil):
             bs.pack_into('u64u2', msg, i, mask_sat, self.integ.iod_sys[sys])
             i += 66
 
-            for f in flag.values():
+            for sat in sat_t:
                 # integrity flag DFi068
-                bs.pack_into('u2', msg, i, f)
+                bs.pack_into('u2', msg, i, flag[sat])
                 i += 2
 
         return i
-- 
2.43.0


From f5f2f82819cd63c9faf7584a7534243eeae09ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:59 +0000
Subject: [PATCH 202/219] fix: bounds on the rates of pseudorange and phase
 errors (DFi120, DFi121) of RTCM message 2006 were swapped

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4cb0eb2..f1f8364 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3686,7 +3686,7 @@ class rtcm(cssr, rtcmUtil):
                 # Nominal pseudorange bias rate of change DFi125
                 # Bounding sigma on phase-range-rate error DFi122
                 # Phase-range-rate error rate integrity index DFi123
-                sig_pd, sig_cd, cbr, sig_dp, idx_dp = bs.unpack_from(
+                sig_cd, sig_pd, cbr, sig_dp, idx_dp = bs.unpack_from(
                     'u4u4u3u4u4', msg, i)
                 i += 19
 
-- 
2.43.0


From d354350a921149caa887e5628118bd285d6a29b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 203/219] fix: clock rates in the report of RTCM SSR messages
 were m/s under a heading of mm/s

---
 src/cssrlib/rtcm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f1f8364..3467f78 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1605,7 +1605,8 @@ class rtcm(cssr, rtcmUtil):
                                                   self.lc[0].dclk[sat_]))
             if flg_drift:
                 self.fh.write("\t{:8.4f}\t{:8.4f}".format(
-                    self.lc[0].ddclk[sat_], self.lc[0].dddclk[sat_]))
+                    self.lc[0].ddclk[sat_]*1e3,
+                    self.lc[0].dddclk[sat_]*1e3))
             self.fh.write("\n")
 
     def out_log_ssr_orb(self, sys, flg_vel=True):
-- 
2.43.0


From 94bc885df6790737e769bf2be540e5b1bc05169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 204/219] fix: corrections of GLONASS SSR test messages were
 missing in the report

---
 src/cssrlib/rtcm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 3467f78..dff64e8 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -749,7 +749,8 @@ class rtcmUtil:
                 return True
             if msgtype >= 1264 and msgtype <= 1270:  # VTEC, PBIAS (obsoleted)
                 return True
-            if tstmsg and msgtype >= 60 and msgtype <= 100:  # SSR test message
+            if tstmsg and (41 <= msgtype <= 46 or
+                           60 <= msgtype <= 100):  # SSR test message
                 return True
         return False
 
-- 
2.43.0


From da882135e326f1add4de17627831230b95ec0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 205/219] fix: corrections of IGS SSR and update intervals of
 GPS and combined messages were missing in the report

---
 src/cssrlib/rtcm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index dff64e8..368d5d2 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1682,9 +1682,13 @@ class rtcm(cssr, rtcmUtil):
 
         if self.msgtype == 4076: # IGS-SSR
             self.fh.write(f" Message Type: IGS-SSR {self.igsssrt_t[self.subtype]} {sys2str(self.sysref)}\n")
+            if self.subtype != sCSSR.VTEC:
+                sys = self.sysref
 
-        if sys > 0 and self.subtype not in [None, sRTCM.SSR_META, sRTCM.SSR_GRID]:
+        if sys >= 0 and self.subtype in self.sc_t:
             j = self.sc_t[self.subtype]
+            if j == sCType.OC:  # given for both orbit and clock
+                j = sCType.ORBIT
             self.fh.write(f" Update Interval: {self.udint_t[self.udi[j]]}[s]")
             self.fh.write(f" MultiMsg: {self.mi}\n")
 
-- 
2.43.0


From ec77dcda8e96c55950288959f4c3c4d4d5a9fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 206/219] fix: report of a RTCM SSR high-rate clock message
 listed the regular clock corrections

---
 src/cssrlib/rtcm.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 368d5d2..7a9a82c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1610,6 +1610,19 @@ class rtcm(cssr, rtcmUtil):
                     self.lc[0].dddclk[sat_]*1e3))
             self.fh.write("\n")
 
+    def out_log_ssr_hclk(self, sys):
+        """ output ssr high-rate clock correction to log file """
+        self.fh.write(f" IODSSR:{self.iodssr} ProvID:{self.pid} " +
+                      f"SolID:{self.sid}\n")
+        self.fh.write(" {:s}\t{:s}\n".format("SatID", "hclk [m]"))
+
+        for k, sat_ in enumerate(self.lc[0].hclk or {}):
+            sys_, _ = sat2prn(sat_)
+            if sys_ != sys:
+                continue
+            self.fh.write(" {:s}\t{:8.4f}\n".format(sat2id(sat_),
+                                                    self.lc[0].hclk[sat_]))
+
     def out_log_ssr_orb(self, sys, flg_vel=True):
         """ output ssr orbit correction to log file """
         self.fh.write(f" IODSSR:{self.iodssr} ProvID:{self.pid} " +
@@ -1695,6 +1708,9 @@ class rtcm(cssr, rtcmUtil):
         if self.subtype == sCSSR.CLOCK:
             self.out_log_ssr_clk(sys)
 
+        if self.subtype == sCSSR.HCLOCK:
+            self.out_log_ssr_hclk(sys)
+
         if self.subtype == sCSSR.ORBIT:
             self.out_log_ssr_orb(sys)
 
@@ -4065,7 +4081,7 @@ class rtcm(cssr, rtcmUtil):
             self.subtype = sCSSR.URA
             i = self.decode_cssr_ura(msg, i)
         elif self.msgtype in (1062, 1068, 1245, 1251, 1257, 1263):
-            self.subtype = sCSSR.CLOCK
+            self.subtype = sCSSR.HCLOCK
             i = self.decode_cssr_hclk(msg, i)
         elif self.msgtype == 4076:  # IGS SSR
             i = self.decode_igsssr(msg, i)
@@ -4128,7 +4144,7 @@ class rtcm(cssr, rtcmUtil):
             self.subtype = sCSSR.URA
             i = self.decode_cssr_ura(msg, i)
         elif self.msgtype in [1062, 46, 77, 78, 79]:
-            self.subtype = sCSSR.CLOCK
+            self.subtype = sCSSR.HCLOCK
             i = self.decode_cssr_hclk(msg, i)
         elif self.msgtype in [1059, 43, 68, 69, 70]:
             self.subtype = sCSSR.CBIAS
-- 
2.43.0


From e838a7b661dc6008b03315e1ef887ee6c3a7b5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 207/219] fix: SBAS ionospheric delay was wrong for pierce
 points beyond 75 degrees of latitude

---
 src/cssrlib/sbas.py | 63 +++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 95cb4d0..6aff1e5 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -104,37 +104,60 @@ def searchIGP(t, posp, cs):
         lonp[2] = lonp[3] = lonp[0]+10
         x = (lon-lonp[0])/10.0
         y = (lat-latp[0])/10.0
-        if lat >= 75.0 and lat < 85.0:
-            lonp[1] = lon//90*90
-            lonp[3] = lonp[1]+90
-        elif lat >= -85.0 and lat < -75.0:
-            lonp[0] = (lon-50.0)//90*90+40
-            lonp[2] = lonp[0] + 90
-        elif lat >= 85.0:
-            lonp[0:4] = lon//90*90
-        elif lat < -85.0:
-            lonp[0:4] = (lon-50)//90*90+40
 
     latp[2] = latp[0]
     latp[3] = latp[1]
 
-    for i in range(4):
-        if lonp[i] == 180:
-            lonp[i] = -180
-    for band in range(MAXBAND):
-        if band not in cs.vtec or band not in cs.givei:
-            continue
+    def get_igp(lat_, lon_):
+        """ delay and GIVEI of a grid point """
+        lon_ = (lon_+180.0) % 360.0-180.0
+        v = None
+        for band in range(MAXBAND):
+            if band not in cs.vtec or band not in cs.givei:
+                continue
 
-        gp = cs.igp_t[band][cs.igp_idx[band]]
-        for i in range(4):
-            idx = np.where((gp[:, 0] == latp[i]) & (gp[:, 1] == lonp[i]))[0]
+            gp = cs.igp_t[band][cs.igp_idx[band]]
+            idx = np.where((gp[:, 0] == lat_) & (gp[:, 1] == lon_))[0]
             if len(idx) == 0:
                 continue
             k = idx[0]
             if cs.givei[band][k] >= 15 or np.isnan(cs.vtec[band][k]):
                 continue
-            igp[i] = [cs.vtec[band][k], cs.givei[band][k]]
+            v = [cs.vtec[band][k], cs.givei[band][k]]
             cs.inet = band+1
+        return v
+
+    if abs(lat) >= 75.0:  # DO-229 A.4.4.10.2, grid points at 85 deg
+        latc = 85.0 if lat > 0.0 else -85.0
+        lon0 = 0.0 if lat > 0.0 else 40.0
+        dlon = 90.0
+        if abs(lat) < 85.0 and (9 if lat > 0.0 else 10) in cs.vtec:
+            dlon = 30.0
+        lonc = (lon-lon0)//dlon*dlon+lon0
+
+        if abs(lat) < 85.0:  # virtual grid points at 85 deg
+            v = [get_igp(latc, lonc), get_igp(latc, lonc+dlon)]
+            for i in range(4):
+                if latp[i] != latc:
+                    igp[i] = get_igp(latp[i], lonp[i])
+                elif v[0] is not None and v[1] is not None:
+                    a = (lonp[i]-lonc)/dlon
+                    igp[i] = [(1.0-a)*v[0][0]+a*v[1][0], max(v[0][1], v[1][1])]
+                else:
+                    igp[i] = None
+        else:  # four grid points around the pole
+            y = (abs(lat)-85.0)/10.0
+            x = (lon-lonc)/90.0*(1.0-2.0*y)+y
+            for i, a in enumerate([0.0, 270.0, 90.0, 180.0]):
+                igp[i] = get_igp(latc, lonc+a)
+
+        if None in igp.values():
+            igp = {}
+    else:
+        for i in range(4):
+            v = get_igp(latp[i], lonp[i])
+            if v is not None:
+                igp[i] = v
 
     return igp, x, y
 
-- 
2.43.0


From 87a0029685f4277c9480c30458d8ed695498a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:43 +0000
Subject: [PATCH 208/219] fix: clock subset block of Galileo HAS was missing in
 the report

---
 src/cssrlib/cssr_has.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 7b150a7..6c037b3 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -145,6 +145,8 @@ class cssr_has(cssr):
             self.mask_id_clk = mask_id
             self.subtype = sCSSR.CLOCK
             i = self.decode_cssr_clk_sub(msg, i)
+            if self.monlevel > 0 and self.fh is not None:
+                self.out_log()
         if (flags >> 1) & 1:  # code bias block
             self.subtype = sCSSR.CBIAS
             i = self.decode_cssr_cbias(msg, i)
-- 
2.43.0


From eff4315ac4542972f359423c6a232813d30b05f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:43 +0000
Subject: [PATCH 209/219] fix: columns of the MADOCA STEC coefficients c02 and
 c20 were interchanged in the report

---
 src/cssrlib/cssr_mdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index b91ff84..7b538c8 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -266,7 +266,7 @@ class cssr_mdc(cssr):
             inet = self.get_inet(self.reg, self.area)
 
             self.fh.write(f"Reg:{self.reg}\tArea:{self.area:2d}\n")
-            self.fh.write("Sat,stype,c00,c01,c10,c11,c20,c02\n")
+            self.fh.write("Sat,stype,c00,c01,c10,c11,c02,c20\n")
 
             for sat in self.lc[inet].sat_n:
                 stype = self.lc[inet].stype[sat]
-- 
2.43.0


From 91270e104a2ca7622c1e227363fe575633a6e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 210/219] fix: log line of a failed ambiguity resolution gave
 the time of the previous epoch

---
 src/cssrlib/pppssr.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index d9e973c..f1e7cac 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1444,6 +1444,7 @@ class pppos():
         # and iono
         #
         self.udstate(obs_)
+        self.nav.t = obs.t
 
         xa = np.zeros(self.nav.nx)
         xp = self.nav.x.copy()
@@ -1534,8 +1535,4 @@ class pppos():
             else:
                 pass
 
-        # Store epoch for solution
-        #
-        self.nav.t = obs.t
-
         return 0
-- 
2.43.0


From 2f4b929fecda88e8b5633da205a9a2ef0d7fae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:37 +0000
Subject: [PATCH 211/219] fix: values of GLONASS CDMA records of RINEX 4
 navigation files were read but not stored

---
 src/cssrlib/rinex.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index e6cf47f..84eccb0 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -399,7 +399,7 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     t0 = self.flt(line, 3)
                 else:  # L1OC, L3OC
-                    bet_ = self.flt(line, 3)  # clock drift rate
+                    geph.beta = self.flt(line, 3)  # clock drift rate
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
@@ -417,8 +417,8 @@ class rnxdec:
 
                     if geph.frq > 128:
                         geph.frq -= 256
-                else:  # L1OC
-                    dvalid = int(self.flt(line, 3))
+                else:  # L1OC, L3OC
+                    geph.status = int(self.flt(line, 3))  # data validity
 
                 line = fnav.readline()  # line #3
                 pos[2] = self.flt(line, 0)*1e3
@@ -432,9 +432,9 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     geph.age = int(self.flt(line, 3))
                 elif self.mode_nav == 1:  # L1OC
-                    tgd_L2OCp = self.flt(line, 3)  # tgd_L2OCp
+                    geph.isc[1] = self.flt(line, 3)  # tgd_L2OCp
                 elif self.mode_nav == 3:  # L3OC
-                    isc_L3OCp = self.flt(line, 3)  # isc_L3OCp
+                    geph.isc[2] = self.flt(line, 3)  # isc_L3OCp
 
                 # Use GLONASS line #4 only from RINEX v3.05 onwards
                 #
@@ -452,19 +452,19 @@ class rnxdec:
                         if line[61:80].strip():
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
-                        sattype = int(self.flt(line, 0))
-                        src = int(self.flt(line, 1))
-                        geph.aode = int(self.flt(line, 2))
-                        geph.aodc = int(self.flt(line, 3))
+                        geph.sattype = int(self.flt(line, 0))
+                        geph.src = int(self.flt(line, 1))
+                        geph.aode = self.flt(line, 2)  # [days]
+                        geph.aodc = self.flt(line, 3)
 
                         line = fnav.readline()  # line #5
-                        P2 = int(self.flt(line, 0))  # attitude flag
+                        geph.flag = int(self.flt(line, 0))  # attitude flag
                         geph.tin = self.flt(line, 1)  # sec of day, UTC(SU)
                         geph.tau1 = self.flt(line, 2)
                         geph.tau2 = self.flt(line, 3)
 
                         line = fnav.readline()  # line #6
-                        geph.yaw = self.flt(line, 0)
+                        geph.psi = self.flt(line, 0)  # yaw angle
                         geph.sn = int(self.flt(line, 1))
                         geph.win = self.flt(line, 2)
                         geph.dw = self.flt(line, 3)
@@ -478,7 +478,8 @@ class rnxdec:
                         line = fnav.readline()  # line #8
                         geph.urai[0] = int(self.flt(line, 0))
                         geph.urai[1] = int(self.flt(line, 1))
-                        t0 = self.flt(line, 2)
+                        # transmission time (third field may be a spare)
+                        t0 = self.flt(line, 2 if line[42:61].strip() else 3)
 
                 tod = t0 % 86400.0
                 tof = gpst2time(week, tod + dow*86400.0)
-- 
2.43.0


From 8afb0b62808a34862998131e595f878d5d5e18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:42 +0000
Subject: [PATCH 212/219] fix: phase biases of RTCM SSR were stored for the
 network of the last grid definition instead of with the other corrections

---
 src/cssrlib/rtcm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 7a9a82c..48df15a 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1273,8 +1273,6 @@ class rtcm(cssr, rtcmUtil):
         self.mi = v['mi']
         self.iyaw = v['iyaw'] if 'iyaw' in v.keys() else True
 
-        inet = self.inet
-
         for k in range(nsat):
             i, sat_ = self.decode_sat(msg, i, sys)
             self.set_t0(inet, sat_, sCType.PBIAS, self.time)
-- 
2.43.0


From d2a592213a4f7118df3400d9b4e9e31b387da667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:42 +0000
Subject: [PATCH 213/219] fix: reports of RTCM SSR troposphere and ionosphere
 messages used the network, issue and interval of other messages

---
 src/cssrlib/rtcm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 48df15a..4494616 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1682,7 +1682,9 @@ class rtcm(cssr, rtcmUtil):
     def out_log(self, obs=None, eph=None, geph=None, seph=None):
         """ output ssr message to log file """
         sys = -1
-        inet = self.inet
+        inet = 0
+        if self.subtype in (sRTCM.SSR_TROP, sRTCM.SSR_STEC):
+            inet = self.gid
         self.fh.write("{:4d}\t{:s}\n".format(self.msgtype,
                                              time2str(self.time)))
 
@@ -3344,6 +3346,9 @@ class rtcm(cssr, rtcmUtil):
         self.lc[inet].ofst = ofst
 
         self.iodssr = v['iodssr']
+        self.udi[sCType.TROP] = v['udi']
+        self.mi = v['mi']
+        self.gid = gid
         self.rmi = rmi
         return i
 
@@ -3368,6 +3373,11 @@ class rtcm(cssr, rtcmUtil):
         inet = self.gid
         self.lc[inet].sat_n = sat
 
+        self.iodssr = v['iodssr']
+        self.udi[sCType.STEC] = v['udi']
+        self.mi = v['mi']
+
+        self.pgi = False
         if self.pmi:  # polynomial model information part
             self.pgi = bs.unpack_from('b1', msg, i)[0]
             i += 1
-- 
2.43.0


From 0726aa70b52e4b568ad101d4cf5b55e9d5773130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:32 +0000
Subject: [PATCH 214/219] fix: the eccentricity of GPS/QZSS LNAV and BeiDou D2
 messages was read as a signed number

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index fee19cd..4e2dc59 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -424,7 +424,7 @@ class RawNav():
         M0 = bs.unpack('s32', bs.pack('u8u24', M0_, M0))[0]
         cuc, e_ = bs.unpack_from('s16u8', buff, i0+32*5+2)
         e = bs.unpack_from('u24', buff, i0+32*6+2)[0]
-        e = bs.unpack('s32', bs.pack('u8u24', e_, e))[0]
+        e = bs.unpack('u32', bs.pack('u8u24', e_, e))[0]
         cus, sa_ = bs.unpack_from('s16u8', buff, i0+32*7+2)
         sa = bs.unpack_from('u24', buff, i0+32*8+2)[0]
         sqrtA = bs.unpack('u32', bs.pack('u8u24', sa_, sa))[0]
@@ -1241,7 +1241,7 @@ class RawNav():
         eph.M0 = self.getbits3(buff, i+50, 2, i+60, 22, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
-        ep5 = bs.unpack_from('s10', buff, i+124)[0]
+        ep5 = bs.unpack_from('u10', buff, i+124)[0]
 
         # page 6
         i = 160*5
-- 
2.43.0


From d0d1905ea2f8a0ec9900833a6218402257a2b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:13 +0000
Subject: [PATCH 215/219] fix: satposs raised a TypeError for transmission
 times at the limits of the precise products

---
 src/cssrlib/ephemeris.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index fbc7385..fc89379 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -715,6 +715,8 @@ def satposs(obs, nav, cs=None, orb=None):
         if nav.ephopt == 4:  # precise ephemeris
 
             rs_, dts_, _ = orb.peph2pos(t, sat, nav)
+            if rs_ is None or dts_ is None or np.isnan(dts_[0]):
+                continue
             rs[i, :] = rs_[0: 3]
             vs[i, :] = rs_[3: 6]
             dts[i] = dts_[0]
-- 
2.43.0


From ff8c59deb4a22c55a5c5096e32415dd7c8c22889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:48 +0000
Subject: [PATCH 216/219] fix: PPP-RTK could not be started with the default
 configuration, or one without elevation mask

---
 src/cssrlib/ppprtk.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ppprtk.py b/src/cssrlib/ppprtk.py
index 013db03..47662a5 100644
--- a/src/cssrlib/ppprtk.py
+++ b/src/cssrlib/ppprtk.py
@@ -3,6 +3,7 @@ module for PPP-RTK positioning
 """
 
 import numpy as np
+from cssrlib.gnss import default_config
 from cssrlib.pppssr import pppos
 
 
@@ -16,10 +17,14 @@ class ppprtkpos(pppos):
         # phase windup model is local/regional
         super().__init__(nav=nav, pos0=pos0, logfile=logfile, config=config)
         
+        if config is None:
+            config = default_config
+
         self.nav.eratio = config['nav']['eratio']
         self.nav.err = config['nav']['err']
         self.nav.sig_p0 = config['nav']['sig_p0']
         self.nav.thresar = config['nav']['thresar']  # AR acceptance threshold
         self.nav.armode = config['nav']['armode']     # AR is enabled
         self.nav.elmaskar = np.deg2rad(config['nav']['elmaskar'])  # elevation mask for AR
-        self.nav.elmin = np.deg2rad(config['nav']['elmin'])
\ No newline at end of file
+        if 'elmin' in config['nav']:
+            self.nav.elmin = np.deg2rad(config['nav']['elmin'])
-- 
2.43.0


From 6ea10e5f92efe9cc8b1880e6c0f9562543c14fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:32 +0000
Subject: [PATCH 217/219] fix: times of figures were relative to the start of
 the half minute plus the fraction of the second of the first epoch

---
 src/cssrlib/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/utils.py b/src/cssrlib/utils.py
index e1982a1..5ef30e4 100644
--- a/src/cssrlib/utils.py
+++ b/src/cssrlib/utils.py
@@ -41,6 +41,7 @@ class process:
         self.nav.t = deepcopy(t)
         self.t0 = deepcopy(t)
         self.t0.time = self.t0.time//30*30
+        self.t0.sec = 0.0
         self.nav.time_p = self.t0
 
     def init_sig(self, sig_t):
-- 
2.43.0


From d6b0e2f81b4bd2b0a151dda3fee1537e7d863db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:10 +0000
Subject: [PATCH 218/219] fix: PPP with SSR corrections raised a TypeError for
 a satellite without antenna calibration

---
 src/cssrlib/pppssr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index f1e7cac..0e715df 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -744,7 +744,9 @@ class pppos():
                                                     sc.PVS_PPP):
                 
                 ants = antModelTx(self.nav, e[i, :], (sigsPR + sigsCP),
-                                  sat, obs.t, rs[i, :], sig0)                
+                                  sat, obs.t, rs[i, :], sig0)
+                if ants is None:
+                    continue
                 antsPR = ants[0:len(sigsPR)]
                 antsCP = ants[len(sigsPR):]
 
-- 
2.43.0


From d080c872010fc0c91d2e5efb96fe0193c82927e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:38 +0000
Subject: [PATCH 219/219] fix: all satellites of a constellation were dropped
 if the one with the highest elevation had no residuals

---
 src/cssrlib/pppssr.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 0e715df..940a1cf 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -841,9 +841,15 @@ class pppos():
                 if len(idx) == 0:
                     continue
 
-                # Select reference satellite with highest elevation
+                # Select reference satellite with highest elevation among
+                # those with residuals
                 #
-                i = idx[np.argmax(el[idx])]
+                idx_r = [k for k in idx if y[k, f] != 0.0]
+
+                if len(idx_r) == 0:
+                    continue
+
+                i = idx_r[np.argmax(el[idx_r])]
 
                 # Loop over satellites
                 #
-- 
2.43.0

