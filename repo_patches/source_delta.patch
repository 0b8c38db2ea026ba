From 1696bc1a01fac5bbd574ea91f7f28642c8e7c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 01/55] fix: splitting an odd-length buffer evenly lost its
 last group

---
 pythonbmp/buffersplit.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/buffersplit.py b/pythonbmp/buffersplit.py
index 874ca8e..e211757 100644
--- a/pythonbmp/buffersplit.py
+++ b/pythonbmp/buffersplit.py
@@ -48,8 +48,7 @@ def altsplitbuf3way(buf: list[any]
          [blue list]]
     """
     m = len(buf)
-    if m % 3 == 0:
-        m -= m & 1
+    m -= m % 3
     return [buf[:m - 2:3], buf[1: m - 1: 3], buf[2: m: 3]]
 
 
@@ -71,8 +70,7 @@ def altsplitbufnway(buf: list[any],
     retval = []
     m = len(buf)
     j = n - 1
-    if m % n == 0:
-        m -= m & 1
+    m -= m % n
     for i in range(n):
         retval += [buf[i: m - j: n]]
         j -= 1
-- 
2.43.0


From c2162de1a9415203d2b7a5018574d2588859a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 02/55] fix: upgrade to 24 bits lost the last columns of 1 and
 4 bit images

---
 pythonbmp/BITMAPlib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 658581c..0d39211 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7542,11 +7542,14 @@ def upgradeto24bitimage(bmp: array):
         my = getmaxy(bmp) - 1
         offset = _BMoffset(nbmp, 0, my)
         r = _xchrcnt(nbmp)
-        for buf in itercopyrect(bmp,
-                        0, 0, mx, my):
+        n = (mx + 1) * 3
+        xbytes = ((mx + 1) * bits + 7) >> 3
+        for y in range(my, -1, -1):
+            buf = BMPbitBLTget(bmp,
+                _BMoffset(bmp, 0, y), xbytes)
             BMPbitBLTput(nbmp, offset,
                 convertbufto24bit(buf,
-                    bgrpal, bits))
+                    bgrpal, bits)[:n])
             offset += r
     return nbmp
 
-- 
2.43.0


From 8edde11400542e82242c72b515817354c71710b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 03/55] fix: crop lost the palette of 8 bit images

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 0d39211..b5a874c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8747,8 +8747,9 @@ def crop(bmp: array, x1: int, y1: int,
     bits = bmp[bmpcolorbits]
     nbmp = newBMP(x2 - x1 + 1,
                   y2 - y1 + 1, bits)
-    if bits < 8:
+    if bits < 24:
         copyRGBpal(bmp, nbmp)
+    if bits < 8:
         for v in itergetcolorfromrectregion(
                     bmp, x1, y1, x2, y2):
             intplotvecxypoint(nbmp,
-- 
2.43.0


From 88611b49a4780996e5a974c88df878e0d1332bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 04/55] fix: circle boundary check compared y with the image
 width

---
 pythonbmp/paramchecks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/paramchecks.py b/pythonbmp/paramchecks.py
index 035e0a4..18d8adc 100644
--- a/pythonbmp/paramchecks.py
+++ b/pythonbmp/paramchecks.py
@@ -352,7 +352,7 @@ def entirecircleinboundary(func):
                            and type(r) == int:
             if entirecircleisinboundary(
                     x, y, -1, readint(bmpx, 4, bmp),
-                          -1, readint(bmpx, 4, bmp), r):
+                          -1, readint(bmpy, 4, bmp), r):
                 return(func(*args, **kwargs))
             else:
                 print(sysmsg['regionoutofbounds'])
-- 
2.43.0


From 43b43f08da053e483c13d61f99ef963c7a561dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 05/55] fix: monochrome filter failed on a circle partly
 outside the image

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b5a874c..1911214 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2503,7 +2503,7 @@ def _usenopar24btfn2circreg(bmp: array,
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
             if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1 ,y2),
+                s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = func(bmp[s2: e2])
             if isinrange(y1, ymax, -1) and y2 != y1:
-- 
2.43.0


From 7687f35e33a894d8832c35c5f5dbfd769e1636f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 06/55] fix: circle filters altered other pixels for circle
 rows outside the image

---
 pythonbmp/BITMAPlib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1911214..0cefc6a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2502,6 +2502,8 @@ def _usenopar24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x1 > x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2560,6 +2562,8 @@ def _use24btfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x1 > x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2711,6 +2715,8 @@ def _usenoparfn2circreg(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x1 > x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -3194,6 +3200,8 @@ def outlinecircregion(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x1 > x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
-- 
2.43.0


From 72831bc91ed7bfeaae285188aba081072521ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 07/55] fix: flipping a 1 bit buffer dropped the lowest bit of
 every byte

---
 pythonbmp/bufferflip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/bufferflip.py b/pythonbmp/bufferflip.py
index bbc4ea9..69c2d5e 100644
--- a/pythonbmp/bufferflip.py
+++ b/pythonbmp/bufferflip.py
@@ -30,7 +30,7 @@ def rotatebitsinbuf(
     Returns:
         unsigned byte array
     """
-    return array('B', [rotatebits(b)
+    return array('B', [rotatebits(b) | (b & 1) << 7
                        for b in buf])
 
 
-- 
2.43.0


From b34d4f4d6bb789ffa43593964830f5e625b7b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 08/55] fix: filled circle partly left or right of the image
 could corrupt it

---
 pythonbmp/BITMAPlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 0cefc6a..6107cca 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3388,6 +3388,8 @@ def filledcircle(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 rgb = int2RGBlist(color)
                 colorbuf = array('B', [rgb[2],
@@ -3406,6 +3408,8 @@ def filledcircle(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
-- 
2.43.0


From e28a38a6527e74c286c4cb75f0e9c94e29758568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 09/55] fix: horizontal line wholly left or right of the image
 corrupted it

---
 pythonbmp/BITMAPlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 6107cca..5e08cb0 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2025,6 +2025,9 @@ def horiline(bmp: array, y: int,
         x1, x2 = swapif(x1, x2, x1 > x2)
         x1 = setmin(x1, 0)
         x2 = setmax(x2, mx - 1)
+        if x1 > x2:
+            print(sysmsg['lineoutofbnd'])
+            return
         dx = x2 - x1 + 1
         s = _BMoffsethd(bmp, x1, y)
         if bits == 24:
-- 
2.43.0


From 92b8aff36f7ad3620736c1f86cb4b65c8d91a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 10/55] fix: vertical line wholly above or below the image
 could fail

---
 pythonbmp/BITMAPlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 5e08cb0..6344dee 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2092,6 +2092,9 @@ def vertline(bmp: array, x: int,
                 swapif(y1, y2, y1 > y2)
             y1 = setmin(y1, 0)
             y2 = setmax(y2, my - 1)
+            if y1 > y2:
+                print(sysmsg['lineoutofbnd'])
+                return
             dy = y2 - y1 + 1
             rgb = int2RGBlist(color)
             s = c(bmp, x, y2)
-- 
2.43.0


From 4ce64a8b07608c71d281562c6860c1d62765f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 11/55] fix: a list of points was always reported to be inside
 the bounds

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 6344dee..5c58bf8 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -499,7 +499,7 @@ def listinBMPrecbnd(bmp: array,
     for (x, y) in xylist:
         if isinBMPrectbnd(
             bmp, x, y) == False:
-            break
+            return False
     return True
 
 
@@ -7728,8 +7728,8 @@ def copyrect(bmp: array,
     retval = array('B', [bmp[bmpcolorbits]])
     x1, y1, x2, y2 = \
        sortrecpoints(x1, y1, x2, y2)
-    retval += int2buf(2, x2 - x1 + 2)
-    retval += int2buf(2, y2 - y1 + 1)
+    retval += int2buf(2, x2 - x1)
+    retval += int2buf(2, y2 - y1)
     retval += int2buf(2,
                 adjustxbufsize(bmp, x1, x2))
     for buf in itercopyrect(
-- 
2.43.0


From 7c8e125baa009c7286ba5f71ae22b50ebbb2de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 12/55] fix: elapsed time lost the leading zeros of its
 nanoseconds

---
 pythonbmp/proctimer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/proctimer.py b/pythonbmp/proctimer.py
index 4d7a0f0..079615f 100644
--- a/pythonbmp/proctimer.py
+++ b/pythonbmp/proctimer.py
@@ -51,7 +51,7 @@ def hhmmsselaspedtime(inittime: int
         ((f'{str(hrs).zfill(2)}:' + str(mins).zfill(2)) + ':')
         + str(secs).zfill(2)
         + '.'
-    ) + str(ns)
+    ) + str(ns).zfill(9)
 
 
 def functimer(func):
-- 
2.43.0


From 88fa35e3a261d6742d01cc97b122f4ecb39ef9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 13/55] fix: listinrecbnd reported every list of points to be
 within bounds

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5df504a..4025e6a 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -818,7 +818,7 @@ def listinrecbnd(
                        xmin, ymin,
                        xmax, ymax) == \
             False:
-            break
+            return False
     return True
 
 
-- 
2.43.0


From 17ab9de31e94918aa5b09e82364d91840a749686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 14/55] fix: copying a region below 8 bits could deliver an
 extra row above it

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 5c58bf8..3d94b71 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2304,7 +2304,7 @@ def itercopyrect(bmp: array,
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     offset = _BMoffset(bmp, x1, y2)
-    lim = _BMoffset(bmp, x2, y1) + r
+    lim = _BMoffset(bmp, x1, y1) + bufsize
     while (offset + bufsize) <= lim:
         yield BMPbitBLTget(bmp,
                offset, bufsize)
-- 
2.43.0


From 24d166117890e9064704ddded8bbc0c04661c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 15/55] fix: copying a circle below 8 bits to another byte
 alignment corrupted the image

---
 pythonbmp/BITMAPlib.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 3d94b71..7e3c30a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2600,11 +2600,16 @@ def copycircregion2buf(bmp: array,
     Returns:
         list with buffer of circular region
     """
-    copybuf = [_getclrbits(bmp), r]
+    bits = _getclrbits(bmp)
+    copybuf = [bits, r]
     c = _getBMoffhdfunc(bmp)
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
+        if bits < 8: # pixels, not bytes
+            copybuf += [[[getxybit(bmp, i, y1) for i in range(x1, x2)],
+                         [getxybit(bmp, i, y2) for i in range(x1, x2)]]]
+            continue
         copybuf += [[bmp[c(bmp, x1, y1): c(bmp, x2, y1)],
                      bmp[c(bmp, x1, y2): c(bmp, x2, y2)]]]
     return copybuf
@@ -2640,6 +2645,11 @@ def pastecirularbuf(bmp: array,
                 for i, (v0, v1) in enumerate(itercirclepartlineedge(r), start=2):
                     x1, x2 = mirror(x, v0)
                     y1, y2 = mirror(y, v1)
+                    if circbuf[0] < 8: # pixels, not bytes
+                        for j in range(x2 - x1):
+                            plotxybit(bmp, x1 + j, y1, circbuf[i][0][j])
+                            plotxybit(bmp, x1 + j, y2, circbuf[i][1][j])
+                        continue
                     bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
                         circbuf[i][0]
                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-- 
2.43.0


From 4c9564691e22ba826e6af9ef91c32b6dc4cad82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 16/55] fix: flipping X and Y of a circle below 8 bits could
 corrupt the image

---
 pythonbmp/BITMAPlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7e3c30a..9410dac 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2766,10 +2766,11 @@ def flipXYcircregion(bmp: array,
             y3, y4 = mirror(x, v1)
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
-            bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-              n[c(n, x3, y3): c(n, x4, y3)]
-            bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-              n[c(n, x3, y4): c(n, x4, y4)]
+            for i in range(x2 - x1 + 1):
+                plotxybit(bmp, x1 + i, y1,
+                    getxybit(n, x3 + i, y3))
+                plotxybit(bmp, x1 + i, y2,
+                    getxybit(n, x3 + i, y4))
     else:
         buf = []
         for (v0, v1) in itercirclepartlineedge(r):
-- 
2.43.0


From dd84b4dbddb450b19cf3504f301f89bf6040f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 17/55] fix: pixelizing a circle in the part of the image that
 fills no whole block corrupted it

---
 pythonbmp/BITMAPlib.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 9410dac..12245e2 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12488,11 +12488,16 @@ def pixelizenxncircregion(bmp: array,
     """
     b = pixelizenxn(bmp, n)
     c = _BMoffsethd
+    # b can be smaller than bmp, pixels
+    # outside of b are left as is
+    mx, my = getmaxxy(b)
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
-        y1, y2 = mirror(y, v1)
-        bmp[c(bmp, x1, y1): c(bmp, x2, y1)], bmp[c(bmp, x1, y2): c(bmp,x2,y2)]= \
-        b[c(b, x1, y1): c(b, x2, y1)], b[c(b, x1, y2): c(b, x2, y2)]
+        x2 = min(x2, mx)
+        for i in mirror(y, v1):
+            if i < my and x1 < x2:
+                bmp[c(bmp, x1, i): c(bmp, x2, i)] = \
+                b[c(b, x1, i): c(b, x2, i)]
 
 
 @func24bitonly
-- 
2.43.0


From 900077865dd48ffaa904635b4866a87025dc4724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 18/55] fix: a truncated bitmap file was loaded as if it were
 whole

---
 pythonbmp/BITMAPlib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 12245e2..12046a3 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -1457,12 +1457,14 @@ def loadBMP(filename: str) -> array:
         if hd != b'BM':
             print(sysmsg['notBMP'])
         else:
-            fsize = char2int(f.read(8))
+            hd += f.read(4)
+            fsize = char2int(hd[2:])
             if fsize > 54:
                 f.seek(0)
                 a.frombytes(f.read(fsize))
-            else:
+            if len(a) != fsize or a[:6].tobytes() != hd:
                 print(sysmsg['notBMP'])
+                a = array('B')
         f.close()
     return a
 
-- 
2.43.0


From f09724627d12dacde6a005b3a0a2e77aa223ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 19/55] fix: colour cycle broke on absolute directories and
 left a directory for an unusable source

---
 pythonbmp/BITMAPlib.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 12046a3..db7516f 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -45,7 +45,7 @@ from os import (
     mkdir
     )
 
-from os.path import pathsep
+from os.path import abspath, pathsep
 from pathlib import Path
 from random import random
 from typing import Callable
@@ -13461,15 +13461,17 @@ def _usefndirsv(
     Returns:
         new bitmap files in a new directory
     """
-    obmp = loadBMP(ExistingBMPfile)
-    cwd = getcwd()
+    frames = func(loadBMP(ExistingBMPfile))
+    if frames is None:
+        return
+    NewDir = abspath(NewDir)
     try:
         mkdir(NewDir)
     except FileExistsError:
         if not overwritedir:
             raise FileExistsError(sysmsg['direxist'])
-    for (i, bmp) in enumerate(func(obmp)):
-        NewBMPfile = f'{cwd}/{NewDir}/{i}.bmp'
+    for (i, bmp) in enumerate(frames):
+        NewBMPfile = f'{NewDir}/{i}.bmp'
         saveBMP(NewBMPfile, bmp)
         print(sysmsg['savefunc'] %
         (func.__name__ ,
-- 
2.43.0


From 3f92f3f658612ff44dd23c9e70d436865487361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 20/55] fix: the viewer launcher ignored its file and failed
 without an Android toolbox

---
 mspaint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mspaint.py b/mspaint.py
index 38eb893..c20eb23 100755
--- a/mspaint.py
+++ b/mspaint.py
@@ -75,7 +75,7 @@ def is_in_pytest():
     )
 
 
-file: Path = determine_file(argv)
+file: Path = determine_file(*argv)
 print(file)
 is_windows: bool = platform == "win32"
 is_android: bool
@@ -86,7 +86,7 @@ try:
         ).strip()
         == "Android"
     )
-except (CalledProcessError, FileNotFoundException):
+except (CalledProcessError, FileNotFoundError):
     is_android = False
 if is_windows:
     print(
-- 
2.43.0


From c5be38c136120269a5f6bb84edb63481fbbe1168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 21/55] fix: reducing a 24 bit image to fewer colors than the
 depth allows kept the wrong palette

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index db7516f..422e46b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -1220,7 +1220,8 @@ def makenewpalfromcolorhist(
             palcnt += 1
         if palcnt == colors:
             break
-    return newpal
+    # fill up, a palette is only set when it is complete
+    return newpal + [[0, 0, 0]] * (colors - palcnt)
 
 
 def copyBMPhdr(bmp: array) -> array:
-- 
2.43.0


From cf6d2ae8db9b4276c7bf48d27089901aef4e1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 22/55] fix: iterimageRGB lost rows of 1 and 4 bit images whose
 width fills no whole byte

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 422e46b..5a6c79e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7646,7 +7646,7 @@ def iterimageRGB(bmp: array,
                                 b[offset + 1],
                                 b[offset]))
             x += 1
-        if x == mx:
+        if x >= mx:
             x = 0
             y -= 1
             offset += padbytes
-- 
2.43.0


From 9eaa3151774c668db5349227c5016981189b4842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 23/55] fix: colour reduction sent black pixels to the nearest
 other colour

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 5a6c79e..2b071ca 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13955,7 +13955,7 @@ def reduce24bitimagebits(
                 if newbits == 1:
                     c = probplotRGBto1bit(v[1], 2)
                 else:
-                    c = matchRGBtopal(v[1], newpal)
+                    c = matchRGBtopal(list(v[1]), newpal)
                 intplotvecxypoint(bmp, v[0], c)
         saveBMP(NewBMPfile, bmp)
         print(sysmsg['savemod'] % (
-- 
2.43.0


From da63c6746e4469b43139305de50ae7a17491eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 24/55] fix: the neighbours of a position left out the first
 row and column

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 4025e6a..7b2796c 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -668,20 +668,20 @@ def itergetneighbors(v: list[int, int],
         ty = y - 1
         rx = x + 1
         by = y + 1
-        if ty > 0:
+        if ty > -1:
             yield [x, ty]
         if includecenter:
             yield(v)
         if by < my:
             yield [x, by]
-        if lx > 0:
-            if ty > 0:
+        if lx > -1:
+            if ty > -1:
                 yield [lx, ty]
             yield [lx, y]
             if by < my:
                 yield [lx, by]
         if rx < mx:
-            if ty > 0:
+            if ty > -1:
                 yield [rx, ty]
             yield [rx, y]
             if by < my:
-- 
2.43.0


From 3c2515a20851056262cf223522b041e83c08586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:08 +0000
Subject: [PATCH 25/55] fix: an edit of an unusable source could overwrite its
 output with an empty file

---
 pythonbmp/BITMAPlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 2b071ca..2c18701 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -1497,6 +1497,9 @@ def saveBMP(filename: str, bmp: array):
     Returns:
         A Bitmap File
     """
+    if len(bmp) == 0:
+        print(sysmsg['notBMP'])
+        return
     ensurePaintWrapperInPath()
     with open(filename, 'wb') as f:
         f.write(bmp)
-- 
2.43.0


From 1a83fbb006db72a693ca5d18ce6c0840c3493785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:20 +0000
Subject: [PATCH 26/55] fix: a diagonal line ran one step past its end and
 could corrupt the image

---
 pythonbmp/primitives2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 7b2796c..ae57a82 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -174,6 +174,8 @@ def iterline(p1: list[int, int],
     dxabs = abs(dx)
     dyabs = abs(dy)
     x = y = 0
+    if dxabs == dyabs: # diagonal: first step stays on p1
+        y = -dyabs
     (px, py) = p1
     if dxabs >= dyabs:
         ilim = dxabs + 1
-- 
2.43.0


From 64de466a7bc79effefc74797cb946cb15093a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 27/55] fix: filling an arc or pie slice too thin to hold a
 pixel failed

---
 pythonbmp/solids3D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 2bfbe2a..d991752 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -360,6 +360,8 @@ def fillpolydata(
         bounds
     """
     filld = {}
+    if len(polybnd) == 0: # nothing to fill
+        return filld
     ((minx, miny), (maxx, maxy)) = \
     rectboundarycoords(polybnd)
     maxx += 1
-- 
2.43.0


From a1a55d6bb89b26e4b91905d84a1b4a9c1f2e24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 28/55] fix: matching black to a palette chose the nearest
 other colour

---
 pythonbmp/colors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index c2fd5aa..8d80689 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -290,6 +290,7 @@ def matchRGBtopal(RGB: list,
     """
     c = i = 0
     d = 442
+    RGB = list(RGB) # an array never equals a palette entry
     if RGB in pal:
         c = pal.index(RGB)
     else:
-- 
2.43.0


From 84755e759a3f8c29dac0db4cab5f0eae3bfb2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 29/55] fix: the ellipse bounds check swapped the axes, so an
 ellipse could wrap or corrupt the image

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index ae57a82..131e488 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -872,10 +872,10 @@ def entireellipseisinboundary(
         False -> Not all (x, y)
                  is in bounds
     """
-    return (isinrange(x - b, maxx, minx) and \
-            isinrange(x + b, maxx, minx)) and \
-           (isinrange(y - a, maxy, miny) and \
-            isinrange(y + a, maxy, miny))
+    return (isinrange(x - a, maxx, minx) and \
+            isinrange(x + a, maxx, minx)) and \
+           (isinrange(y - b, maxy, miny) and \
+            isinrange(y + b, maxy, miny))
 
 
 def ellipsevert(x: int, y: int,
-- 
2.43.0


From 1982ce50c50ca84ce512284df71d6e9d7fe41f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 30/55] fix: filled ellipse left or right of the image could
 corrupt it

---
 pythonbmp/BITMAPlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 2c18701..4391883 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3785,6 +3785,8 @@ def filledellipse(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 rgb = int2RGBlist(color)
                 colorbuf = \
@@ -3804,6 +3806,8 @@ def filledellipse(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
+                if x1 > x2:
+                    continue
                 dx = x2 - x1 + 1
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
-- 
2.43.0


From cce83a410fdda8ccc8043f7cc75219683b7ead2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:07 +0000
Subject: [PATCH 31/55] fix: an ellipse reaching beyond its axes could wrap
 round the border

---
 pythonbmp/BITMAPlib.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4391883..69825d1 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3844,28 +3844,17 @@ def ellipse(bmp: array,
         filledellipse(
             bmp, x, y, b, a, color)
     else:
-        (mx, my) = getmaxxy(bmp)
         bits = bmp[bmpcolorbits]
         c = _getBMoffhdfunc(bmp)
-        dobndcheck = not entireellipseisinboundary(
-                            x, y, -1, mx,
-                                  -1, my, b, a)
         if bits == 24:
             color = int2BGRarr(color)
             for (px, py) in iterellipse(x, y, b, a):
-                if dobndcheck:
-                    if isinBMPrectbnd(bmp, px, py):
-                        s = c(bmp, px, py)
-                        bmp[s: s + 3] = color
-                else:
+                if isinBMPrectbnd(bmp, px, py):
                     s = c(bmp, px, py)
                     bmp[s: s + 3] = color
         elif bits == 8:
             for (px, py) in iterellipse(x, y, b, a):
-                if dobndcheck:
-                    if isinBMPrectbnd(bmp, px, py):
-                        bmp[c(bmp, px, py)] = color
-                else:
+                if isinBMPrectbnd(bmp, px, py):
                     bmp[c(bmp, px, py)] = color
         else:
             for (px, py) in iterellipse(x, y, b, a):
-- 
2.43.0


From 3e857cc4ed9589a04794ba1629acceb73100dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:04 +0000
Subject: [PATCH 32/55] fix: a 4 bit horizontal line overwrote the pixel before
 it while drawing

---
 pythonbmp/BITMAPlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 69825d1..a00fe63 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2050,10 +2050,10 @@ def horiline(bmp: array, y: int,
             e = s + dx
             color &= 0xf
             c2 = (color << 4) + color
-            c1 = (bmp[s] & 0xf0) if x1 & 1 == 1 else -1
-            bmp[s: e] = array('B', [c2] * dx)
-            if c1 != -1:
-                bmp[s] = c1 + (bmp[s] & 0xf)
+            run = array('B', [c2] * dx)
+            if x1 & 1 == 1 and dx > 0:
+                run[0] = (bmp[s] & 0xf0) + color
+            bmp[s: e] = run
             if x2 & 1 == 1:
                 plotxybit(bmp,
                     x2 - 1, y, color)
-- 
2.43.0


From e7aa5d4448774f59edb626e8e0d9c775e00eb0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 33/55] fix: getdefaultbitpal handed out the built-in palette
 itself, so editing the result recoloured later images

---
 pythonbmp/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index 8d80689..787096b 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -84,7 +84,7 @@ def getdefaultbitpal(
     Returns:
         list of palette entries
     """
-    return bmpstdpal[bits]
+    return [c[:] for c in bmpstdpal[bits]]
 
 
 def colormix(lum: int,
-- 
2.43.0


From 2a6df7f2a1a03d2d9d460bf5fadbe017c54e7c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 34/55] fix: the viewer launcher could open a directory named
 like a bitmap

---
 mspaint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mspaint.py b/mspaint.py
index c20eb23..5067497 100755
--- a/mspaint.py
+++ b/mspaint.py
@@ -57,7 +57,7 @@ def determine_file(*argv) -> Path:
     else:
         glob = "*.bmp"
     for f in sorted(
-        Path.cwd().rglob(glob),
+        (p for p in Path.cwd().rglob(glob) if p.is_file()),
         key=mtime,
         reverse=True,
     ):
-- 
2.43.0


From 15a64faf68aab40eba4d8b8218c489e5f6c99dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 35/55] fix: the viewer launcher failed where looking for the
 Android toolbox is denied

---
 mspaint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mspaint.py b/mspaint.py
index 5067497..71642d1 100755
--- a/mspaint.py
+++ b/mspaint.py
@@ -86,7 +86,7 @@ try:
         ).strip()
         == "Android"
     )
-except (CalledProcessError, FileNotFoundError):
+except (CalledProcessError, OSError):
     is_android = False
 if is_windows:
     print(
-- 
2.43.0


From 76eee5269da40b1bd97eb84643bb9c938c64769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 36/55] fix: the viewer launcher opened another file on Android
 when the name holds # ? or %

---
 mspaint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mspaint.py b/mspaint.py
index 71642d1..0fa5ac7 100755
--- a/mspaint.py
+++ b/mspaint.py
@@ -40,7 +40,7 @@ Installation:
 from subprocess import CalledProcessError, check_output
 from pathlib import Path
 from sys import argv, exit, modules, platform, stderr
-from urllib.parse import ParseResult, urlunparse
+from urllib.parse import ParseResult, quote, urlunparse
 
 # The path tp the file we want to open
 def mtime(p: Path) -> float:
@@ -133,7 +133,7 @@ else:
                 ParseResult(
                     scheme="file",
                     netloc="",
-                    path=file.as_posix(),
+                    path=quote(file.as_posix()),
                     params="",
                     query="",
                     fragment="",
-- 
2.43.0


From 0c0ceb5c996fa4c1a38d38c6823ad88d235844ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 37/55] fix: sideways text in a list of colours took the next
 colour at every pixel instead of every row

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index a00fe63..49c023c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -4905,11 +4905,11 @@ def plot8bitpatternsidewaywithfn(
                         fn(bmp, x, y, inc, cl)
                 mask >>= 1
                 y -= scale
-                colorind += 1
-                if colorcnt == colorind:
-                    colorind = 0
             x += scale
             y = oy
+            colorind += 1
+            if colorcnt == colorind:
+                colorind = 0
 
 
 def plotitalic8bitpatternsidewaywithfn(
-- 
2.43.0


From 47641489fa8a0b49cb17a08971e9a154d84cae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 38/55] fix: 8-bit fractals wrote outside their picture's
 pixels and failed above 255 iterations

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 49c023c..b88107a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9162,7 +9162,7 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = c
+            plotxybit(bmp, x, y, c)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
@@ -9220,7 +9220,7 @@ def plotmultifractalcomplexpar(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = v
+            plotxybit(bmp, x, y, v)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-- 
2.43.0


From 9c08bcdda642f401ea15cc1551db053783bfd7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 39/55] fix: superellipse fractals could not be drawn in 4 and
 8 bit pictures

---
 pythonbmp/BITMAPlib.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b88107a..b051586 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9162,11 +9162,11 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 1:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
@@ -9174,7 +9174,7 @@ def plotmultifractal(bmp: array,
     else:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, (mcolor - c) % maxcolors)
+            plotxybit(bmp, x, y, (mcolor - int(c)) % maxcolors)
 
 
 def plotmultifractalcomplexpar(bmp: array,
@@ -9220,11 +9220,11 @@ def plotmultifractalcomplexpar(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, v)
+            plotxybit(bmp, x, y, int(v))
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, v)
+            plotxybit(bmp, x, y, int(v))
     elif bits == 1:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                            domain, maxiter):
@@ -9232,7 +9232,7 @@ def plotmultifractalcomplexpar(bmp: array,
     else:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                            domain, maxiter):
-            plotxybit(bmp, x, y, (mcolor - v) % maxcolors)
+            plotxybit(bmp, x, y, (mcolor - int(v)) % maxcolors)
 
 
 def newtonsfractal(bmp: array,
-- 
2.43.0


From 25e8bcab04b4f5038ec96bbf9d0a23e8c92f1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 40/55] fix: printing a bitmap as text left out its bottom row

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b051586..1cfedcb 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12226,7 +12226,7 @@ def plotbmpastext(bmp: array):
     my = getmaxy(bmp) - 1
     r = _xchrcnt(bmp)
     offset = _hdsz(bmp)
-    for y in range(my, 0, -1):
+    for y in range(my, -1, -1):
         for x in range(r):
             i = offset + r * y + x
             if bits == 1:
-- 
2.43.0


From 9737886aa05c8825b306f9771f189976ccf47f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 41/55] fix: scatter plots drew data beyond the axes as a
 marker in the picture's corner

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1cfedcb..efd96cc 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7336,6 +7336,8 @@ def XYscatterplot(
         r = v[2]
         w = userdef2Dcooordsys2screenxy(
                 v[0], v[1], XYcoordinfo)
+        if w == [-1, -1]:
+            continue
         if r>1:
             circlevec(bmp, w,
                 setmax(r, 5), v[3], v[4])
-- 
2.43.0


From 1fb78b698e0e0a34594eefc9f64dcff739071d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 42/55] fix: a falling or unreachable regression line was drawn
 from the picture's corner

---
 pythonbmp/BITMAPlib.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index efd96cc..82a3ff4 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7354,6 +7354,13 @@ def XYscatterplot(
                 xmin, ymin, XYcoordinfo)
         w = userdef2Dcooordsys2screenxy(
                 xmax, ymax, XYcoordinfo)
+        if u == w == [-1, -1]:
+            return
+        if u == [-1, -1]:
+            ymin = XYcoordinfo[5][1]
+            xmin = (ymin - b) / m
+            u = userdef2Dcooordsys2screenxy(
+                    xmin, ymin, XYcoordinfo)
         if w == [-1, -1]:
             ymax = XYcoordinfo[5][1]
             xmax = (ymax - b) / m
-- 
2.43.0


From a092086f05f7bbef356b4901f3b4cca0777938d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 43/55] fix: regular polygons whose sides do not divide 360 had
 wrong angles and an extra vertex

---
 pythonbmp/primitives2D.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 131e488..5070950 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -502,11 +502,9 @@ def floatregpolygonvert(
     """
     v = []
     angle = radians(angle)
-    anginc = 360 // sides
-    maxang = 360
     q = complex(cx, cy)
-    for a in range(0, maxang, anginc):
-        ang = angle + radians(a)
+    for i in range(sides):
+        ang = angle + radians(360 * i / sides)
         z = q - r * complex(sin(ang), cos(ang))
         v.append([z.real, z.imag])
     return v
-- 
2.43.0


From 21e25f337b80e078630c0d45c7de6e7147f7e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 44/55] fix: a face of a solid turned fully from the light
 failed or took a wrong colour

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 82a3ff4..15dca78 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -6906,7 +6906,8 @@ def plotpolyfillist(
     for i, poly in enumerate(polylist):
         c = (
             colormix(
-                int(cosaffin(normlist[i], [0, 0, 1]) * 128) + 127, RGBfactors
+                setmin(int(cosaffin(normlist[i], [0, 0, 1]) * 128) + 127, 0),
+                RGBfactors
             )
             if normlist[i] != [0, 0, 0]
             else colormix(127, RGBfactors)
-- 
2.43.0


From f87e6de735ecb1b402c9875b4258600d7ebef7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 45/55] fix: the south pole of a sphere ignored the sphere's
 centre

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index d991752..584c87c 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -482,7 +482,7 @@ def spherevert(vcen: list[float,
                            radians(phi)]))
             if p not in plist:
                 plist.append(p)
-    p = [0, 0, -r]
+    p = addvect(vcen, [0, 0, -r])
     if p not in plist:
         plist.append(p)
     return plist
-- 
2.43.0


From f3730af619dd0771a373b96b3ffbef556a47c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 46/55] fix: surface plots joined the wrong points when the
 step did not divide the width

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 584c87c..00a6eda 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -707,7 +707,7 @@ def surfplot3Dvertandsurface(
         for x in range(x1, x2, step):
             z = fnxy(x, y)
             vlist.append([x, y, z])
-    dx = abs(x2 - x1) // step
+    dx = len(range(x1, x2, step))
     dx1 = dx - 1
     vl = len(vlist)
     for v in vlist:
-- 
2.43.0


From d39b476013a61d97dc5c3ac80243a067b395c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 47/55] fix: a regression line above the last tick everywhere
 was drawn from the picture's corner

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 15dca78..49bdfeb 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7367,7 +7367,8 @@ def XYscatterplot(
             xmax = (ymax - b) / m
             w = userdef2Dcooordsys2screenxy(
                     xmax, ymax, XYcoordinfo)
-        linevec(bmp, u, w, reglinecolor)
+        if [-1, -1] not in (u, w):
+            linevec(bmp, u, w, reglinecolor)
 
 
 def getneighborcolorlist(
-- 
2.43.0


From 997d28eb2f68aa8fa37d27a2c7beb72fe1376cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 48/55] fix: copied blocks more than 255 bytes wide or 255 rows
 high were pasted wrong

---
 pythonbmp/inttools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/inttools.py b/pythonbmp/inttools.py
index 8450315..28fa38d 100644
--- a/pythonbmp/inttools.py
+++ b/pythonbmp/inttools.py
@@ -88,5 +88,4 @@ def buf2int(buf: array) -> int:
     Returns:
         unsigned int value
     """
-    j = len(buf) - 1
-    return sum(buf[i] << (i << 3) for i in range(j))
+    return sum(buf[i] << (i << 3) for i in range(len(buf)))
-- 
2.43.0


From b22deef040aeeaeb650350dba40c37b6ca23d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 49/55] fix: sphere2file reports a missing source file like the
 other edits do

---
 pythonbmp/BITMAPlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 49bdfeb..4737ff0 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13650,6 +13650,7 @@ def _use24btclrfnwithpar2circreg(
             ExistingBMPfile, NewBMPfile))
 
 
+@checklink
 def _use24btclrfnwithmultpar2circreg(
         ExistingBMPfile: str,
         NewBMPfile: str,
-- 
2.43.0


From 1d7685a8699a791938800130cfc443af4aed21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 50/55] fix: autocropimg2file reports a missing source file
 like the other edits do

---
 pythonbmp/BITMAPlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4737ff0..7352846 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -14549,6 +14549,7 @@ def invertregion2file(
 
 
 @functimer
+@checklink
 def autocropimg2file(
         ExistingBMPfile: str,
         NewBMPfile: str,
-- 
2.43.0


From a7215af5744d983800dedfd004dbe5b97e31b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 51/55] fix: samples name Earth.bmp and tanuki.bmp as the files
 are called

---
 samples/fonts/Hello_Earth.py                             | 2 +-
 samples/fonts/Hello_Earth_Reverse_text.py                | 2 +-
 samples/fonts/Hello_Earth_Sideways_text.py               | 2 +-
 samples/fonts/Hello_Earth_Upsidedown_text.py             | 2 +-
 samples/fonts/Hello_Earth_Vertical_text.py               | 2 +-
 samples/imageproc/Hello_4bitBMP_Downscale.py             | 2 +-
 samples/imageproc/Hello_8bitBMP_Downscale.py             | 2 +-
 samples/imageproc/Hello_Circular_Color_Filter.py         | 2 +-
 samples/imageproc/Hello_Circular_Mono_Filter.py          | 2 +-
 samples/imageproc/Hello_Circular_Pixellate.py            | 2 +-
 samples/imageproc/Hello_Circular_Region_BrightnessAdj.py | 2 +-
 samples/imageproc/Hello_Circular_Region_GammaAdj.py      | 2 +-
 samples/imageproc/Hello_Copy_Paste_Earth.py              | 2 +-
 samples/imageproc/Hello_Crop_Earth.py                    | 2 +-
 samples/imageproc/Hello_Invert_Colors.py                 | 2 +-
 samples/imageproc/Hello_Mirror_BottomLeft.py             | 2 +-
 samples/imageproc/Hello_Mirror_BottomRight.py            | 2 +-
 samples/imageproc/Hello_Mirror_Left.py                   | 2 +-
 samples/imageproc/Hello_Mirror_Right.py                  | 2 +-
 samples/imageproc/Hello_Mirror_TopLeft.py                | 2 +-
 samples/imageproc/Hello_Mirror_TopRight.py               | 2 +-
 samples/imageproc/Hello_Pixellate_the_Earth.py           | 2 +-
 samples/imageproc/Hello_Rectangular_BrightnessAdj.py     | 2 +-
 samples/imageproc/Hello_Rectangular_Color_Filter.py      | 2 +-
 samples/imageproc/Hello_Rectangular_GammaAdj.py          | 2 +-
 samples/imageproc/Hello_Rectangular_Mono_Filter.py       | 2 +-
 samples/imageproc/Hello_Resize_Larger_by_n.py            | 2 +-
 samples/imageproc/Hello_Save_Selection.py                | 2 +-
 samples/imageproc/Hello_TV_Scanlines.py                  | 2 +-
 29 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/samples/fonts/Hello_Earth.py b/samples/fonts/Hello_Earth.py
index 8fa1ec9..0d4517e 100644
--- a/samples/fonts/Hello_Earth.py
+++ b/samples/fonts/Hello_Earth.py
@@ -29,7 +29,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = f(f'{rootdir}/../assets/earth.bmp')
+        bmp = f(f'{rootdir}/../assets/Earth.bmp')
         c = getcolorname2RGBdict() #friendly color names 2 rgb
         fontsize = 4 # font size
         pixspace = 1 # space between bitmap font pixels (0 = default)
diff --git a/samples/fonts/Hello_Earth_Reverse_text.py b/samples/fonts/Hello_Earth_Reverse_text.py
index cf22298..8016e86 100644
--- a/samples/fonts/Hello_Earth_Reverse_text.py
+++ b/samples/fonts/Hello_Earth_Reverse_text.py
@@ -30,7 +30,7 @@ def main():
         print(f'{notice}\n{meta(l)}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = l(f'{rootdir}/../assets/earth.bmp')
+        bmp = l(f'{rootdir}/../assets/Earth.bmp')
         c = getcolorname2RGBdict() #friendly color names 2 rgb
         fontsize = 4 # font size (unsigned int)
         pixspace = 1 # space between bitmap font pixels (0 = default) (unsigned int)
diff --git a/samples/fonts/Hello_Earth_Sideways_text.py b/samples/fonts/Hello_Earth_Sideways_text.py
index 9bce700..d836801 100644
--- a/samples/fonts/Hello_Earth_Sideways_text.py
+++ b/samples/fonts/Hello_Earth_Sideways_text.py
@@ -29,7 +29,7 @@ def main():
         print(f'{notice}\n{meta(l)}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = l(f'{rootdir}/../assets/earth.bmp') # call loadBMP
+        bmp = l(f'{rootdir}/../assets/Earth.bmp') # call loadBMP
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
         c = getcolorname2RGBdict() #friendly color names 2 rgb
diff --git a/samples/fonts/Hello_Earth_Upsidedown_text.py b/samples/fonts/Hello_Earth_Upsidedown_text.py
index c929941..0c9c2d5 100644
--- a/samples/fonts/Hello_Earth_Upsidedown_text.py
+++ b/samples/fonts/Hello_Earth_Upsidedown_text.py
@@ -31,7 +31,7 @@ def main():
         print(f'{notice}\n{meta(l)}\n{meta(f)}\n{meta(p)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = l(f'{rootdir}/../assets/earth.bmp')# call loadBMP
+        bmp = l(f'{rootdir}/../assets/Earth.bmp')# call loadBMP
         c = getcolorname2RGBdict() #friendly color names 2 rgb
         fontsize = 4 # font size
         pixspace = 1 # space between bitmap font pixels (0 = default)
diff --git a/samples/fonts/Hello_Earth_Vertical_text.py b/samples/fonts/Hello_Earth_Vertical_text.py
index 4193367..bc56316 100644
--- a/samples/fonts/Hello_Earth_Vertical_text.py
+++ b/samples/fonts/Hello_Earth_Vertical_text.py
@@ -29,7 +29,7 @@ def main():
         print(f'{notice}\n{meta(l)}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) #get path of running script
-        bmp = l(f'{rootdir}/../assets/earth.bmp') # call loadBMP
+        bmp = l(f'{rootdir}/../assets/Earth.bmp') # call loadBMP
         c = getcolorname2RGBdict() #friendly color names 2 rgb
         fontsize = 2 # uint font size multiplier
         pixspace = 0 # uint space between bitmap font pixels (0 = default)
diff --git a/samples/imageproc/Hello_4bitBMP_Downscale.py b/samples/imageproc/Hello_4bitBMP_Downscale.py
index 90e1d24..797b6ea 100644
--- a/samples/imageproc/Hello_4bitBMP_Downscale.py
+++ b/samples/imageproc/Hello_4bitBMP_Downscale.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        file = f'{rootdir}/../assets/earth.bmp'
+        file = f'{rootdir}/../assets/Earth.bmp'
         newfile = '4bitBMP.bmp'
         bits = 4 # valid values are 8,4,1
         threshold = 16 # in computing new palette how far apart should colors be
diff --git a/samples/imageproc/Hello_8bitBMP_Downscale.py b/samples/imageproc/Hello_8bitBMP_Downscale.py
index e987d88..96d37e8 100644
--- a/samples/imageproc/Hello_8bitBMP_Downscale.py
+++ b/samples/imageproc/Hello_8bitBMP_Downscale.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        file = f'{rootdir}/../assets/earth.bmp'
+        file = f'{rootdir}/../assets/Earth.bmp'
         newfile = '8bitBMP.bmp'
         bits= 8 # valid values are 8,4,1
         threshold = 4 # in computing new palette how far apart should colors be
diff --git a/samples/imageproc/Hello_Circular_Color_Filter.py b/samples/imageproc/Hello_Circular_Color_Filter.py
index 4432029..1902b7d 100644
--- a/samples/imageproc/Hello_Circular_Color_Filter.py
+++ b/samples/imageproc/Hello_Circular_Color_Filter.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        origfile =f'{rootdir}/../assets/earth.bmp'
+        origfile =f'{rootdir}/../assets/Earth.bmp'
         file = f'Hello{f.__name__}.bmp' #file name
         x, y = 87, 83 # How to get center of the bitmap
         r = x - 20 # radius set to x - 20
diff --git a/samples/imageproc/Hello_Circular_Mono_Filter.py b/samples/imageproc/Hello_Circular_Mono_Filter.py
index ef6eac8..35a803e 100644
--- a/samples/imageproc/Hello_Circular_Mono_Filter.py
+++ b/samples/imageproc/Hello_Circular_Mono_Filter.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        origfile =  f'{rootdir}/../assets/earth.bmp'
+        origfile =  f'{rootdir}/../assets/Earth.bmp'
         file = f'Hello{f.__name__}.bmp' #file name
         x, y = 87, 83 #  center of the bitmap
         r = x - 20 # radius set to x - 20
diff --git a/samples/imageproc/Hello_Circular_Pixellate.py b/samples/imageproc/Hello_Circular_Pixellate.py
index 8d40412..0c82384 100644
--- a/samples/imageproc/Hello_Circular_Pixellate.py
+++ b/samples/imageproc/Hello_Circular_Pixellate.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) #get path of running script
-        origfile = f'{rootdir}/../assets/earth.bmp'
+        origfile = f'{rootdir}/../assets/Earth.bmp'
         file = f'Hello{f.__name__}.bmp' #file name
         x, y = 87, 83 # center of the bitmap
         r = x - 30 # radius set to x - 30
diff --git a/samples/imageproc/Hello_Circular_Region_BrightnessAdj.py b/samples/imageproc/Hello_Circular_Region_BrightnessAdj.py
index 6df8915..3d6ccc4 100644
--- a/samples/imageproc/Hello_Circular_Region_BrightnessAdj.py
+++ b/samples/imageproc/Hello_Circular_Region_BrightnessAdj.py
@@ -28,7 +28,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) #get path of running script
-        bmp = loadBMP(f'{rootdir}/../assets/earth.bmp')
+        bmp = loadBMP(f'{rootdir}/../assets/Earth.bmp')
         (x, y) = centercoord(bmp) # How to get center of the bitmap
         r1 = 60 # radius 1 set to 60
         r2 = 40 # radius 2 set to 40
diff --git a/samples/imageproc/Hello_Circular_Region_GammaAdj.py b/samples/imageproc/Hello_Circular_Region_GammaAdj.py
index f9db8f3..57a769a 100644
--- a/samples/imageproc/Hello_Circular_Region_GammaAdj.py
+++ b/samples/imageproc/Hello_Circular_Region_GammaAdj.py
@@ -28,7 +28,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) #get path of running script
-        bmp = loadBMP(f'{rootdir}/../assets/earth.bmp')
+        bmp = loadBMP(f'{rootdir}/../assets/Earth.bmp')
         (x, y) = centercoord(bmp) # How to get center of the bitmap
         r = 60 # radius
         gc = .1 # gamma correction
diff --git a/samples/imageproc/Hello_Copy_Paste_Earth.py b/samples/imageproc/Hello_Copy_Paste_Earth.py
index 73cdf0f..72d5cc9 100644
--- a/samples/imageproc/Hello_Copy_Paste_Earth.py
+++ b/samples/imageproc/Hello_Copy_Paste_Earth.py
@@ -27,7 +27,7 @@ def main():
         print(f'{notice}\n{meta(c)}\n{meta(p)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = loadBMP(f'{rootdir}/../assets/earth.bmp')
+        bmp = loadBMP(f'{rootdir}/../assets/Earth.bmp')
         buf = c(bmp, 3, 3, 60, 60) # copy a rectangular region (x1,y1,x2,y2) to a buffer
         p(bmp, buf, 40, 40) # paste buffer to a rectangular region at (x1,y1)
         file = f'HelloEarth{c.__name__}{p.__name__}.bmp' #file name
diff --git a/samples/imageproc/Hello_Crop_Earth.py b/samples/imageproc/Hello_Crop_Earth.py
index 571fff1..3eb4c0d 100644
--- a/samples/imageproc/Hello_Crop_Earth.py
+++ b/samples/imageproc/Hello_Crop_Earth.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        existingfile = f'{rootdir}/../assets/earth.bmp'
+        existingfile = f'{rootdir}/../assets/Earth.bmp'
         file = f'Hello{f.__name__}.bmp' #file name
         # crop a rectangular region (x1,y1,x2,y2) to a file
         f(existingfile, file, # new file to save in
diff --git a/samples/imageproc/Hello_Invert_Colors.py b/samples/imageproc/Hello_Invert_Colors.py
index 5404e97..eea9e33 100644
--- a/samples/imageproc/Hello_Invert_Colors.py
+++ b/samples/imageproc/Hello_Invert_Colors.py
@@ -24,7 +24,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) #get path of running script
-        origfile = f'{rootdir}/../assets/earth.bmp'
+        origfile = f'{rootdir}/../assets/Earth.bmp'
         file = f'Hello{f.__name__}.bmp' #file name
         f(origfile, file) # call invertimagebits
         print('Saved to %s in %s\nAll done close %s to finish' % \
diff --git a/samples/imageproc/Hello_Mirror_BottomLeft.py b/samples/imageproc/Hello_Mirror_BottomLeft.py
index 4b63678..45042e8 100644
--- a/samples/imageproc/Hello_Mirror_BottomLeft.py
+++ b/samples/imageproc/Hello_Mirror_BottomLeft.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        origfile = f'{rootdir}/../assets/Tanuki.bmp'
+        origfile = f'{rootdir}/../assets/tanuki.bmp'
         file = f'Hello{f.__name__}.bmp' # file name
         f(origfile, file) # call mirrorbottomleft
         print('Saved to %s in %s\nAll done close %s to finish' % \
diff --git a/samples/imageproc/Hello_Mirror_BottomRight.py b/samples/imageproc/Hello_Mirror_BottomRight.py
index 8bcfaab..d130f08 100644
--- a/samples/imageproc/Hello_Mirror_BottomRight.py
+++ b/samples/imageproc/Hello_Mirror_BottomRight.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        origfile = f'{rootdir}/../assets/Tanuki.bmp'
+        origfile = f'{rootdir}/../assets/tanuki.bmp'
         file = f'Hello{f.__name__}.bmp' # file name
         f(origfile, file) # call mirrorbottomright
         print('Saved to %s in %s\nAll done close %s to finish' % \
diff --git a/samples/imageproc/Hello_Mirror_Left.py b/samples/imageproc/Hello_Mirror_Left.py
index c6fc841..7701352 100644
--- a/samples/imageproc/Hello_Mirror_Left.py
+++ b/samples/imageproc/Hello_Mirror_Left.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        origfile = f'{rootdir}/../assets/Tanuki.bmp'
+        origfile = f'{rootdir}/../assets/tanuki.bmp'
         file = f'Hello{f.__name__}.bmp' # file name
         f(origfile, file) # call mirrortopleft
         print('Saved to %s in %s\nAll done close %s to finish' % \
diff --git a/samples/imageproc/Hello_Mirror_Right.py b/samples/imageproc/Hello_Mirror_Right.py
index 6c080d7..2c2816d 100644
--- a/samples/imageproc/Hello_Mirror_Right.py
+++ b/samples/imageproc/Hello_Mirror_Right.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        origfile = f'{rootdir}/../assets/Tanuki.bmp'
+        origfile = f'{rootdir}/../assets/tanuki.bmp'
         file = f'Hello{f.__name__}.bmp' # file name
         f(origfile, file) # call mirrortopleft
         print('Saved to %s in %s\nAll done close %s to finish' % \
diff --git a/samples/imageproc/Hello_Mirror_TopLeft.py b/samples/imageproc/Hello_Mirror_TopLeft.py
index c5f7615..8da80ff 100644
--- a/samples/imageproc/Hello_Mirror_TopLeft.py
+++ b/samples/imageproc/Hello_Mirror_TopLeft.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        origfile = f'{rootdir}/../assets/Tanuki.bmp'
+        origfile = f'{rootdir}/../assets/tanuki.bmp'
         file = f'Hello{f.__name__}.bmp' # file name
         f(origfile, file) # call mirrortopleft
         print('Saved to %s in %s\nAll done close %s to finish' % \
diff --git a/samples/imageproc/Hello_Mirror_TopRight.py b/samples/imageproc/Hello_Mirror_TopRight.py
index 4f93a8c..f2b2c5e 100644
--- a/samples/imageproc/Hello_Mirror_TopRight.py
+++ b/samples/imageproc/Hello_Mirror_TopRight.py
@@ -24,7 +24,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) #get path of running script
-        origfile = f'{rootdir}/../assets/Tanuki.bmp'
+        origfile = f'{rootdir}/../assets/tanuki.bmp'
         file = f'Hello{f.__name__}.bmp' # file name
         f(origfile, file) # call mirrortopright
         print('Saved to %s in %s\nAll done close %s to finish' % \
diff --git a/samples/imageproc/Hello_Pixellate_the_Earth.py b/samples/imageproc/Hello_Pixellate_the_Earth.py
index ae3edbd..342246d 100644
--- a/samples/imageproc/Hello_Pixellate_the_Earth.py
+++ b/samples/imageproc/Hello_Pixellate_the_Earth.py
@@ -24,7 +24,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        origfile = f'{rootdir}/../assets/earth.bmp'
+        origfile = f'{rootdir}/../assets/Earth.bmp'
         file = f'Hello{f.__name__}.bmp' # file name
         f(origfile, file, 4) # 4x4 pix unit to blend for blur effect
         print('Saved to %s in %s\nAll done close %s to finish' % \
diff --git a/samples/imageproc/Hello_Rectangular_BrightnessAdj.py b/samples/imageproc/Hello_Rectangular_BrightnessAdj.py
index dbd6aaa..9680b86 100644
--- a/samples/imageproc/Hello_Rectangular_BrightnessAdj.py
+++ b/samples/imageproc/Hello_Rectangular_BrightnessAdj.py
@@ -27,7 +27,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = loadBMP(f'{rootdir}/../assets/earth.bmp')
+        bmp = loadBMP(f'{rootdir}/../assets/Earth.bmp')
         #brightnesseadjto24bitregion(bmp bytearray,x1,y1,x2,y2,brightnessadjpercent)
         f(bmp, 30, 30, 138, 138, -50) # darken rectangular region
         f(bmp, 50, 50, 118, 118, 100) # lighten rectangular region
diff --git a/samples/imageproc/Hello_Rectangular_Color_Filter.py b/samples/imageproc/Hello_Rectangular_Color_Filter.py
index 87a5896..f637de3 100644
--- a/samples/imageproc/Hello_Rectangular_Color_Filter.py
+++ b/samples/imageproc/Hello_Rectangular_Color_Filter.py
@@ -28,7 +28,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = loadBMP(f'{rootdir}/../assets/earth.bmp')
+        bmp = loadBMP(f'{rootdir}/../assets/Earth.bmp')
         rf, gf, bf = 1, .7, .3 #RGB factors 0 to 1 float
         # colorfilterto24bitregion(bmp,x1,y1,x2,y2,[rf,gf,bf])
         f(bmp, 30, 30, 138, 138,[rf, gf, bf])
diff --git a/samples/imageproc/Hello_Rectangular_GammaAdj.py b/samples/imageproc/Hello_Rectangular_GammaAdj.py
index a5ec26e..bf0cb8b 100644
--- a/samples/imageproc/Hello_Rectangular_GammaAdj.py
+++ b/samples/imageproc/Hello_Rectangular_GammaAdj.py
@@ -27,7 +27,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = loadBMP(f'{rootdir}/../assets/earth.bmp')
+        bmp = loadBMP(f'{rootdir}/../assets/Earth.bmp')
         #gammaadjto24bitregion(bmp,x1,y1,x2,y2,gammadj <ufloat>)
         f(bmp, 30, 30, 138, 138, 4) # gamma adjustment
         f(bmp, 50, 50, 118, 118, 0.1)
diff --git a/samples/imageproc/Hello_Rectangular_Mono_Filter.py b/samples/imageproc/Hello_Rectangular_Mono_Filter.py
index 1b58878..35b0109 100644
--- a/samples/imageproc/Hello_Rectangular_Mono_Filter.py
+++ b/samples/imageproc/Hello_Rectangular_Mono_Filter.py
@@ -28,7 +28,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = loadBMP(f'{rootdir}/../assets/earth.bmp')
+        bmp = loadBMP(f'{rootdir}/../assets/Earth.bmp')
         f(bmp, 30, 30, 138, 138) # monofilterto24bitregion(bmp,x1,y1,x2,y2)
         file = f'Hello{f.__name__}.bmp' # file name
         saveBMP(file, bmp) # save the modified earth image to a file
diff --git a/samples/imageproc/Hello_Resize_Larger_by_n.py b/samples/imageproc/Hello_Resize_Larger_by_n.py
index 03139b8..a361b20 100644
--- a/samples/imageproc/Hello_Resize_Larger_by_n.py
+++ b/samples/imageproc/Hello_Resize_Larger_by_n.py
@@ -24,7 +24,7 @@ def main():
         print(f'{notice % (n)}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) #get path of running script
-        existingfile = f'{rootdir}/../assets/earth.bmp'
+        existingfile = f'{rootdir}/../assets/Earth.bmp'
         file = f'Hello{f.__name__}.bmp' # new file
         f(existingfile, file, n) # make bigg by n times
         print(f'All done close {imgedt} to finish')
diff --git a/samples/imageproc/Hello_Save_Selection.py b/samples/imageproc/Hello_Save_Selection.py
index 3287f4c..1d276ac 100644
--- a/samples/imageproc/Hello_Save_Selection.py
+++ b/samples/imageproc/Hello_Save_Selection.py
@@ -28,7 +28,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        bmp = loadBMP(f'{rootdir}/../assets/earth.bmp')
+        bmp = loadBMP(f'{rootdir}/../assets/Earth.bmp')
         buff = copyrect(bmp, 7, 7, 61, 61) # copy rectagular region (x1,y1,x2,y2) uint to buff
         nbmp = f(buff)# convert buffer to bitmap
         file = f'Hello{f.__name__}.bmp' #file name
diff --git a/samples/imageproc/Hello_TV_Scanlines.py b/samples/imageproc/Hello_TV_Scanlines.py
index 797d348..e6d0646 100644
--- a/samples/imageproc/Hello_TV_Scanlines.py
+++ b/samples/imageproc/Hello_TV_Scanlines.py
@@ -25,7 +25,7 @@ def main():
         print(f'{notice}\n{meta(f)}')
         imgedt = 'mspaint'  # replace with another editor if Unix
         rootdir = path.dirname(__file__) # get path of this script
-        origfile = f'{rootdir}/../assets/earth.bmp'
+        origfile = f'{rootdir}/../assets/Earth.bmp'
         file = f'Hello{f.__name__}.bmp' #file name
         n = 3 # control line erase
         f(origfile, file, n) # do line erase
-- 
2.43.0


From cfa90c71c6b83db4e52662ab7b15614662d66e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 52/55] fix: the feature demo starts the viewer on Unix too

---
 samples/Features_Speedtest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/Features_Speedtest.py b/samples/Features_Speedtest.py
index e3a5830..22329ce 100644
--- a/samples/Features_Speedtest.py
+++ b/samples/Features_Speedtest.py
@@ -403,7 +403,7 @@ def main():
         hhmmsselaspedtime(demostart))
 
         print('\nAll done close mspaint to finish')
-        ret = proc.call('mspaint ' + file) # replace with another editor if Unix
+        ret = proc.call(['mspaint', file]) # replace with another editor if Unix
         print('\nThe')
         print(plot8bitpatternastext([0x00,0x00,0x38,0x6C,0x6C,0x38,0x76,0xDC,0xCC,0xCC,0x76,0x00,0x00,0x00],'&',' '))
 
-- 
2.43.0


From 099a99fc187bd3ea23f02968f4d5853cdc4a408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 53/55] fix: packbitlisttobuf put every eighth bit first in its
 byte

---
 pythonbmp/bufresize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 9866df0..b9b76e5 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -94,7 +94,7 @@ def packbitlisttobuf(blist: list[int]
     b = 0
     while i < j:
         m = i % 8
-        b += blist[i - 1] << (7 - m)
+        b += blist[i - 1] << (-i % 8)
         if m == 0 and i > 1:
             retval += [b]
             b = 0
-- 
2.43.0


From ae087b9d769250e7765094bb246acc41b1a13d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 54/55] fix: resizeNtimesbigger keeps the last pixels of rows
 below 8 bits

---
 pythonbmp/BITMAPlib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7352846..b39daea 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8932,9 +8932,13 @@ def resizeNtimesbigger(
         copyRGBpal(bmp, nbmp)
     offset = _BMoffset(nbmp, 0, ny)
     r = _xchrcnt(nbmp)
-    for buf in itercopyrect(bmp, 0, 0,
-                        mx, my):
-        nbuf = resizebufNtimesbigger(buf, n, bits)
+    rowsize = _xchrcnt(bmp) - _pdbytes(mx + 1, bits)
+    nrowsize = r - _pdbytes(nx, bits)
+    for y in range(my, -1, -1):
+        buf = BMPbitBLTget(bmp, _BMoffset(
+                         bmp, 0, y), rowsize)
+        nbuf = resizebufNtimesbigger(
+                  buf, n, bits)[:nrowsize]
         for _ in range(n):
             BMPbitBLTput(nbmp, offset, nbuf)
             offset += r
-- 
2.43.0


From 99fcdc0ee80549c9a9347e4fa01caee2d538a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:04 +0000
Subject: [PATCH 55/55] fix: header integers use all their bytes, and the file
 size only its own four

Widths and heights from 2**24 on were written and read without their top
byte, and bytes that other programs store in the reserved fields were read
as part of the file size, so edits of such pictures failed.
---
 pythonbmp/BITMAPlib.py | 4 ++--
 pythonbmp/inttools.py  | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b39daea..2dc9b80 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -547,7 +547,7 @@ def _setflsz(bmp: array, size: int):
         byref modified unsigned byte array
         with new file size
     """
-    writeint(bmpfilesize, 8, bmp, size)
+    writeint(bmpfilesize, 4, bmp, size)
 
 
 def _flsz(bmp: array) -> int:
@@ -562,7 +562,7 @@ def _flsz(bmp: array) -> int:
         unsigned int value of size
         of the bmp header
     """
-    return readint(bmpfilesize, 8, bmp)
+    return readint(bmpfilesize, 4, bmp)
 
 
 def _sethdsz(bmp: array, hdsize: int):
diff --git a/pythonbmp/inttools.py b/pythonbmp/inttools.py
index 28fa38d..2f1a74c 100644
--- a/pythonbmp/inttools.py
+++ b/pythonbmp/inttools.py
@@ -36,8 +36,7 @@ def writeint(offset: int, cnt: int,
     Returns:
         byref unsigned byte array
     """
-    j = cnt - 1
-    for i in range(j):
+    for i in range(cnt):
         arr[offset + i] = value & 0xff
         value = value >> 8
 
@@ -59,8 +58,7 @@ def readint(offset: int, cnt: int,
     Returns:
         unsigned int value
     """
-    j = cnt - 1
-    return sum(arr[offset + i] << (i << 3) for i in range(j))
+    return sum(arr[offset + i] << (i << 3) for i in range(cnt))
 
 
 def int2buf(cnt: int, value: int
-- 
2.43.0

