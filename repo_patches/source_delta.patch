From b0fc626bbca666a1a33074280b03486dfd8613a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 01/41] fix: writenek stores single-precision data as 8-byte
 words when wdsz is 8

---
 src/pymech/neksuite/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index d61a11d..8625f9d 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -454,7 +454,7 @@ def writenek(fname, data):
         if data.wdsz == 4:
             correct_endianness(a.astype(np.float32)).tofile(outfile)
         else:
-            correct_endianness(a).tofile(outfile)
+            correct_endianness(a.astype(np.float64)).tofile(outfile)
 
     #
     # write geometry
-- 
2.43.0


From 05b824fbc864270cbff7e986a19f6e75fba229d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 02/41] fix: writenek does not truncate an existing file when
 it refuses the word size

---
 src/pymech/neksuite/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 8625f9d..7412940 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -384,8 +384,6 @@ def writenek(fname, data):
             data structure
     """
     #
-    outfile = open(fname, "wb")
-    #
     # ---------------------------------------------------------------------------
     # WRITE HEADER
     # ---------------------------------------------------------------------------
@@ -413,6 +411,9 @@ def writenek(fname, data):
     else:
         raise ValueError("Could not interpret real type (wdsz = %i)" % (data.wdsz))
     #
+    # open the file only now, so that a refused call leaves an existing file alone
+    outfile = open(fname, "wb")
+    #
     # generate header
     outfile.write(h.as_bytestring())
     #
-- 
2.43.0


From 1526331fd281671ba527e961cb01fd9a6a57cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 03/41] fix: readnek keeps a usable element map when the one in
 the file is corrupted

---
 src/pymech/neksuite/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 7412940..a17aff4 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -226,7 +226,11 @@ def readnek(fname, dtype="float64", skip_vars=()):
     data.time = h.time
     data.istep = h.istep
     data.wdsz = h.wdsz
-    data.elmap = np.array(elmap, dtype=np.int32)
+    if 0 in elmap:
+        # corrupted map: elements are read in sequence (see below)
+        data.elmap = np.arange(1, h.nb_elems_file + 1, dtype=np.int32)
+    else:
+        data.elmap = np.array(elmap, dtype=np.int32)
     if emode == "<":
         data.endian = "little"
     elif emode == ">":
-- 
2.43.0


From 63af26e0c44d3d5b0ea702c344b1641256df1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 04/41] fix: readre2 reads big-endian files

---
 src/pymech/neksuite/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 03be657..867d8fa 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -681,7 +681,7 @@ def readre2(fname):
     # where p1-5 are f64 parameters and ctype is the type of curvature in ASCII
     ncparam = 8
     buf = infile.read(wdsz)
-    ncurv = int(np.frombuffer(buf)[0])
+    ncurv = int(np.frombuffer(buf, dtype=emode + realtype)[0])
     logger.debug(f"Found {ncurv} curved sides")
     data.ncurv = ncurv
     buf = infile.read(wdsz * (ncparam * ncurv))
@@ -699,7 +699,7 @@ def readre2(fname):
         # select only the first byte, because it turns out the later bytes may contain garbage.
         # typically, it's b'C\x00\x00\x00\x00\x00\x00\x00' or b'C\x00\x00\x00\x00\x00\xe0?'.
         # AFAIK the curvature types are always one character long anyway.
-        ctype = curv[7].tobytes()[:1].decode("utf-8")
+        ctype = curv[7:].tobytes()[:1].decode("utf-8")
         # fill in the data structure
         data.elem[iel].curv[iedge, :] = cparams
         data.elem[iel].ccurv[iedge] = ctype
@@ -716,7 +716,7 @@ def readre2(fname):
             for el in data.elem:
                 empty_bcs = np.zeros(el.bcs[:1, :].shape, dtype=el.bcs.dtype)
                 el.bcs = np.concatenate((el.bcs, empty_bcs))
-        nbclines = int(np.frombuffer(buf)[0])
+        nbclines = int(np.frombuffer(buf, dtype=emode + realtype)[0])
         logger.debug(
             f"Found {nbclines} external boundary conditions for field {ifield}"
         )
@@ -732,7 +732,7 @@ def readre2(fname):
             iel = int(bc[0]) - 1
             iface = int(bc[1]) - 1
             bcparams = bc[2:7]
-            bctype = bc[7].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
+            bctype = bc[7:].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
             # fill in the data structure
             data.elem[iel].bcs[ifield, iface][0] = bctype
             data.elem[iel].bcs[ifield, iface][1] = iel + 1
-- 
2.43.0


From af4f50c8b31c05ed2c246c2f9bf2b128b7eb208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 05/41] fix: keep the third character of boundary condition
 types in .rea files

---
 src/pymech/neksuite/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 867d8fa..c5fa594 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -147,7 +147,7 @@ def readrea(fname):
             for iface in range(nface):
                 line = infile.readline()
                 if nel < 1e3:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:7])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[7:10])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -156,7 +156,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 elif nel < 1e6:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = iel + 1
                     data.elem[iel].bcs[ibc, iface][2] = iface + 1
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -165,7 +165,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 else:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:15])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[15:16])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[16:34])
@@ -518,7 +518,7 @@ def writerea(fname, data):
                     data.elem[iel].bcs[ibc, iface][2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
-                        " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             data.elem[iel].bcs[ibc, iface][0],
                             data.elem[iel].bcs[ibc, iface][1],
                             data.elem[iel].bcs[ibc, iface][2],
@@ -531,7 +531,7 @@ def writerea(fname, data):
                     )
                 elif data.nel < 1e6:
                     outfile.write(
-                        " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             data.elem[iel].bcs[ibc, iface][0],
                             data.elem[iel].bcs[ibc, iface][1],
                             data.elem[iel].bcs[ibc, iface][3],
@@ -543,7 +543,7 @@ def writerea(fname, data):
                     )
                 else:
                     outfile.write(
-                        " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
+                        " {:3s}{:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
                             data.elem[iel].bcs[ibc, iface][0],
                             data.elem[iel].bcs[ibc, iface][1],
                             data.elem[iel].bcs[ibc, iface][2],
-- 
2.43.0


From 58327c9d9b07ee3036c1759e727ede12dc10a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 06/41] fix: writere2 accepts element dimensions stored as a
 tuple

---
 src/pymech/neksuite/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index c5fa594..14a0b32 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -762,7 +762,7 @@ def writere2(fname, data):
     # ---------------------------------------------------------------------------
     #
     # We could extract the corners, but for now just return an error if lr1 is too large
-    if data.lr1 != [2, 2, data.ndim - 1]:
+    if list(data.lr1) != [2, 2, data.ndim - 1]:
         raise ValueError(
             "wrong element dimensions for re2 file! {} != {}".format(
                 data.lr1, [2, 2, data.ndim - 1]
-- 
2.43.0


From ac6b3b5aa1324f28cd18b7aa57edc9dcb4346298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 07/41] fix: writerea does not modify the mesh it writes

---
 src/pymech/neksuite/mesh.py | 56 +++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 14a0b32..b1ac92a 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -512,46 +512,48 @@ def writerea(fname, data):
             for iface in range(2 * data.ndim):
                 # if no boundary condition is specified, write 'E' iel iface [...]
                 # this is the behaviour of re2torea.
-                if data.elem[iel].bcs[ibc, iface][0] == "":
-                    data.elem[iel].bcs[ibc, iface][0] = "E"
-                    data.elem[iel].bcs[ibc, iface][1] = iel + 1
-                    data.elem[iel].bcs[ibc, iface][2] = iface + 1
+                # (in a copy, to leave the mesh as it is)
+                bc = data.elem[iel].bcs[ibc, iface].copy()
+                if bc[0] == "":
+                    bc[0] = "E"
+                    bc[1] = iel + 1
+                    bc[2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
                         " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 elif data.nel < 1e6:
                     outfile.write(
                         " {:3s}{:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 else:
                     outfile.write(
                         " {:3s}{:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
 
-- 
2.43.0


From b5922b9116469f14e0f0f6e1192b4ea47b792030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 08/41] fix: writerea does not announce boundary conditions
 that do not follow

---
 src/pymech/neksuite/mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index b1ac92a..a4c5b9a 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -498,7 +498,10 @@ def writerea(fname, data):
     #
     # boundary conditions data
     outfile.write("  ***** BOUNDARY CONDITIONS *****\n")
-    outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    if data.nbc > 0:
+        outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    else:
+        outfile.write("  ***** NO FLUID BOUNDARY CONDITIONS *****\n")
     for ibc in range(data.nbc):
         if ibc == 1:
             outfile.write("  ***** THERMAL BOUNDARY CONDITIONS *****\n")
-- 
2.43.0


From b3407d85698e1ffb360c3a3a6043c97066d7e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 09/41] fix: writerea states the number of curved sides it
 writes

---
 src/pymech/neksuite/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index a4c5b9a..a50e2ef 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -443,8 +443,10 @@ def writerea(fname, data):
     #
     # curved side data
     outfile.write("  ***** CURVED SIDE DATA *****\n")
+    # the number of curved sides written must match the ones that follow
+    ncurv = sum(ccurv != "" for el in data.elem for ccurv in el.ccurv)
     outfile.write(
-        f"  {data.ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
+        f"  {ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
     )
     for iel in range(data.nel):
         if data.nel < 1e3:
-- 
2.43.0


From 6d1bdbb774c55cc58af24f402de2f4657d54ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 10/41] fix: readrea reads the conditions that follow an absent
 field

---
 src/pymech/neksuite/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index a50e2ef..792fafa 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -142,7 +142,9 @@ def readrea(fname):
     #
     infile.readline()  # ***** BOUNDARY CONDITIONS *****
     for ibc in range(nbc):
-        infile.readline()  # ***** FLUID   BOUNDARY CONDITIONS ***** [or similar]
+        # ***** FLUID   BOUNDARY CONDITIONS ***** [or similar], after any absent field
+        while "NO" in infile.readline().split():
+            pass
         for iel in range(nel):
             for iface in range(nface):
                 line = infile.readline()
-- 
2.43.0


From e791a305b6e0fe5b693ab067bf066960ca6c87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 11/41] fix: smallest_edge measures the edges, not the
 diagonals of the faces

---
 src/pymech/core.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 9b6150e..d2f4429 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -148,10 +148,11 @@ class Elem:
         """returns the length of the smallest edge, neglecting curvature"""
 
         # get coordinates of points
+        # (numbered around the face, and at the ends of the edges for any number of points)
         x1, y1, z1 = self.pos[:, 0, 0, 0]
-        x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 0]
-        x4, y4, z4 = self.pos[:, 0, 1, 1]
+        x2, y2, z2 = self.pos[:, 0, 0, -1]
+        x3, y3, z3 = self.pos[:, 0, -1, -1]
+        x4, y4, z4 = self.pos[:, 0, -1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -165,10 +166,10 @@ class Elem:
             ndim = 2
         if ndim > 2:
             # in 3D, do the same for the upper face, and also the side edges
-            x5, y5, z5 = self.pos[:, 1, 0, 0]
-            x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 0]
-            x8, y8, z8 = self.pos[:, 1, 1, 1]
+            x5, y5, z5 = self.pos[:, -1, 0, 0]
+            x6, y6, z6 = self.pos[:, -1, 0, -1]
+            x7, y7, z7 = self.pos[:, -1, -1, -1]
+            x8, y8, z8 = self.pos[:, -1, -1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
-- 
2.43.0


From 8cc908edf7fdb698874eb6173bb07c6dc80254ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 12/41] fix: check_connectivity reports connections to
 nonexistent faces

---
 src/pymech/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index d2f4429..281f1f7 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -302,6 +302,13 @@ class HexaData:
                         f"{connected_face} of the nonexistent element {connected_iel}"
                     )
                     logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
+                elif connected_face < 0 or connected_face >= 2 * dim:
+                    err = True
+                    logger.error(
+                        f"face {iface} of element {iel} is connected ('{cbc}') to the "
+                        f"nonexistent face {connected_face} of element {connected_iel}"
+                    )
+                    logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
                 else:
                     cbc1 = self.elem[connected_iel].bcs[ibc, connected_face][0]
                     iel1 = int(self.elem[connected_iel].bcs[ibc, connected_face][3]) - 1
-- 
2.43.0


From f7a1ef6b457414090eb45edebe7b628404026c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 13/41] fix: DataLims accepts a single element

---
 src/pymech/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 281f1f7..25050ad 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -44,7 +44,9 @@ class DataLims:
     def __init__(self, elements):
         self._variables = ("pos", "vel", "pres", "temp", "scal")
 
-        aggregated_lims = reduce(self._lims_aggregator, elements)
+        aggregated_lims = reduce(
+            self._lims_aggregator, map(self._lims_per_element, elements)
+        )
         for var in self._variables:
             agg_lims_var = aggregated_lims[var]
             # set minimum, maximum of variables as a nested tuple
-- 
2.43.0


From 1a2845d9c28508326838fd7315b5dc0ee5ef98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 14/41] fix: HexaData does not share its lists with the caller
 or other meshes

---
 src/pymech/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 25050ad..e587b69 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -239,8 +239,9 @@ class HexaData:
         self.nel = nel
         self.ncurv = 0
         self.nbc = nbc
-        self.var = var
-        self.lr1 = lr1
+        # copies, so that meshes do not share them with each other or with the caller
+        self.var = copy.copy(var)
+        self.lr1 = copy.copy(lr1)
         self.time = 0.0
         self.istep = 0
         self.wdsz = 8
-- 
2.43.0


From 77e22510fecb3e3f1c17c3b4f215f980e5b97090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 15/41] fix: extrude without internal conditions removes them
 from every layer

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93ec911..8eccb48 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -68,6 +68,8 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     # add extra copies of all elements
     for k in range(nz - 1):
         mesh_add = copy.deepcopy(mesh)
+        if not internal_bcs:
+            delete_internal_bcs(mesh_add)
         # fix the indexing of periodic and internal conditions
         mesh_add.offset_connectivity((k + 1) * nel2d)
         mesh3d.elem = mesh3d.elem + mesh_add.elem
-- 
2.43.0


From e05e48ebbe01e49a32649ab953667a805bdbbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 16/41] fix: extrude gives the new mesh an element map of its
 own size

---
 src/pymech/meshtools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 8eccb48..192260d 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -61,6 +61,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     nel3d = mesh.nel * nz
     nbc = mesh.nbc
     mesh3d.nel = nel3d
+    mesh3d.elmap = np.linspace(1, nel3d, nel3d, dtype=np.int32)
     mesh3d.ndim = 3
     # The curved sides will also be extruded, one on each side of each element along nz
     mesh3d.ncurv = 2 * nz * mesh.ncurv
-- 
2.43.0


From 57aa0c291b6695fd0f39673ce26b57f3f0ae6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 17/41] fix: keep_elements keeps the element map consistent

---
 src/pymech/meshtools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 192260d..ab8f1f9 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1234,6 +1234,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
         new_elems.append(mesh.elem[iel])
     mesh.elem = new_elems
     mesh.nel = len(mesh.elem)
+    mesh.elmap = np.linspace(1, mesh.nel, mesh.nel, dtype=np.int32)
     mesh.update_ncurv()
 
 
-- 
2.43.0


From ab9e880bd29626f1e3612494d0791179bd65486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 18/41] fix: edge_mid and edge_circle do not modify the element

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index ab8f1f9..70faa79 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -898,7 +898,7 @@ def edge_mid(el, iedge):
     """
 
     # correct if ccurv=='m', otherwise, works as allocation
-    midpoint = el.curv[iedge][:3]
+    midpoint = el.curv[iedge][:3].copy()
 
     if el.ccurv[iedge] != "m":
         if iedge == 0:
@@ -1057,7 +1057,7 @@ def edge_circle(el, iedge, midpoint):
         radius = 0.0
         center = [0.0, 0.0, 0.0]
 
-    curv = el.curv[iedge][:4]
+    curv = el.curv[iedge][:4].copy()
     curv[0] = radius
     curv[1:4] = center
 
-- 
2.43.0


From e3f02eab5adad54ab44c95aba0faa4a8c8e5fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 19/41] fix: map2D states the number of curved edges of the
 mapped mesh

---
 src/pymech/meshtools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 70faa79..9fda11f 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1857,4 +1857,5 @@ def map2D(
                 xm, ym, _ = edge_mid(el, iedge)
                 mapped_xm, mapped_ym = transformation(xm, ym)
                 mapped_el.curv[iedge, 0:2] = mapped_xm, mapped_ym
+    mapped_mesh.update_ncurv()
     return mapped_mesh
-- 
2.43.0


From 2249d0a47278fc4e0b40e47a1c97c676b928291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 20/41] fix: map2D and generate_internal_bcs accept meshes
 without boundary condition fields

---
 src/pymech/meshtools.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 9fda11f..17af190 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1119,6 +1119,10 @@ def generate_internal_bcs(mesh, tol=1e-3):
         if scales[iel] <= 0.0:
             raise ValueError(f"Detected an edge with zero length in element {iel}!")
 
+    # there is nothing to connect if there is no field to hold boundary conditions
+    if mesh.nbc == 0:
+        return 0
+
     # generate lookup tables for face centers and the faces that are already connected
     nface = 2 * mesh.ndim
     fc = np.empty((mesh.nel, nface, 3))
@@ -1851,7 +1855,11 @@ def map2D(
             if (
                 curvature
                 or el.ccurv[iedge] != ""
-                or (boundary_curvature and el.bcs[0][iedge][0] not in ["", "E"])
+                or (
+                    boundary_curvature
+                    and mesh.nbc > 0
+                    and el.bcs[0][iedge][0] not in ["", "E"]
+                )
             ):
                 mapped_el.ccurv[iedge] = "m"
                 xm, ym, _ = edge_mid(el, iedge)
-- 
2.43.0


From f4924220e4a97fcf4f5da17abf72b887c46cb18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 21/41] fix: rotate_2d rotates around the given centre

---
 src/pymech/meshtools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 17af190..0c0df86 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1345,17 +1345,17 @@ def rotate_2d(mesh, x0, y0, theta):
     cost = cos(theta)
     sint = sin(theta)
     for el in mesh.elem:
-        x = el.pos[0, ...].copy()
-        y = el.pos[1, ...].copy()
-        el.pos[0, ...] = cost * x - sint * y
-        el.pos[1, ...] = sint * x + cost * y
+        x = el.pos[0, ...] - x0
+        y = el.pos[1, ...] - y0
+        el.pos[0, ...] = x0 + cost * x - sint * y
+        el.pos[1, ...] = y0 + sint * x + cost * y
         # rotate 'm' curvature
         for edge in range(12):
             if el.ccurv[edge] == "m":
-                x = el.curv[edge, 0]
-                y = el.curv[edge, 1]
-                el.curv[edge, 0] = cost * x - sint * y
-                el.curv[edge, 1] = sint * x + cost * y
+                x = el.curv[edge, 0] - x0
+                y = el.curv[edge, 1] - y0
+                el.curv[edge, 0] = x0 + cost * x - sint * y
+                el.curv[edge, 1] = y0 + sint * x + cost * y
 
 
 # =================================================================================
-- 
2.43.0


From 128b99b2879f30710e3931b09123fbe2e799737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 22/41] fix: gen_circle states the number of curved sides

---
 src/pymech/meshtools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 0c0df86..4150933 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1799,6 +1799,7 @@ def gen_circle(
     # bottom box
     rotate_2d(box_o, 0, 0, 0.5 * pi)
     box_square.merge(box_o, ignore_all_bcs=not internal_bcs)
+    box_square.update_ncurv()
 
     return box_square
 
-- 
2.43.0


From ccc6c63e4c5d5e1013fe206680f834cb52355570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 23/41] fix: gen_circle without internal conditions leaves no
 dummy ones

---
 src/pymech/meshtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 4150933..aec24cb 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1700,7 +1700,8 @@ def gen_circle(
     if internal_bcs:
         build_connectivity(box_square, ns, ns)
     # boundary conditions: dummy BCs to signal that the faces should be glued
-    connectivity_bc = ["con"] * nbc
+    # (the faces remain empty if no internal connectivity is requested)
+    connectivity_bc = ["con" if internal_bcs else ""] * nbc
     apply_bcs(
         box_square,
         ns,
-- 
2.43.0


From 730b60219a2ca5dae74cf75e807efda6ae3a2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 24/41] fix: extrude_refine works without splitting functions
 or parameters

---
 src/pymech/meshtools.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index aec24cb..733a4d2 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -229,9 +229,17 @@ def extrude_refine(
                 "Inconsistent boundary conditions: one end is 'P' but the other isn't"
             )
 
+    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
+    if fun is None or len(fun) == 0:
+        logger.info("Splitting function not defined. Calling simple extrusion routine.")
+        mesh3D = extrude(mesh2D, z, bc1, bc2, internal_bcs=internal_bcs)
+        return mesh3D
+
     # Consistency checks: Functions that define the splitting lines
     nsplit = len(fun)
-    if funpar is not None and len(funpar) != nsplit:
+    if funpar is None:
+        funpar = [0.0] * nsplit
+    if len(funpar) != nsplit:
         raise ValueError(
             f"The length of funpar ({len(funpar)}) must match the length of par ({nsplit})!"
         )
@@ -247,12 +255,6 @@ def extrude_refine(
             f"Inconsistent elements to extrude: the number of elements ({nz}) must be a multiple of {max([2**abs(imesh_high + 1), 2**abs(nsplit - imesh_high + 1)])}"
         )
 
-    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
-    if fun is None:
-        logger.info("Splitting function not defined. Calling simple extrusion routine.")
-        mesh3D = extrude(mesh2D, z, bc1, bc2)
-        return mesh3D
-
     mesh2D_ext = copy.deepcopy(mesh2D)
     # get rid of internal boundary conditions if they are not requested
     if not internal_bcs:
-- 
2.43.0


From 85fca92d92bb91ca67cab57cb779546feac4b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 25/41] fix: gen_circle finds its default spacing at any scale

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 733a4d2..17d33ef 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1604,10 +1604,10 @@ def gen_circle(
             return l1 - len_ref
 
         # iterate using the secant method
-        l0 = 1
+        l0 = width
         l1 = 0
         f0 = err_stretching(l0, square_spacing)
-        eps = 1e-12  # this value shouldn't matter very much
+        eps = 1e-12 * r  # this value shouldn't matter very much
         max_iters = 10000
         iters = 0
         while abs(f0) > eps and iters < max_iters:
-- 
2.43.0


From 84f516b3ffccfbc6e36f9484cf8cb130d4b26b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 26/41] fix: gen_circle falls back on uniform spacing when the
 graded one does not exist

---
 src/pymech/meshtools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 17d33ef..f6ba101 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1617,8 +1617,12 @@ def gen_circle(
             f0 = f1
             iters += 1
 
-        # geometric spacing progression factor using that first element size
-        alpha = exponential_refinement_parameter(l1, width, no)
+        # geometric spacing progression factor using that first element size,
+        # or uniform spacing if there is only one element or no room for that size
+        if no > 1 and 0 < l1 < width:
+            alpha = exponential_refinement_parameter(l1, width, no)
+        else:
+            alpha = 1
 
         def bl_fun(x):
             eps = 1e-12
-- 
2.43.0


From bd659d43ba2453c9ca688c8d6848c51232840fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 27/41] fix: refuse to split elements along a diagonal in
 extrude_refine

---
 src/pymech/meshtools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index f6ba101..f2828dd 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -507,6 +507,11 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                 raise ValueError(
                     "Mid element not consistent. Criteria must divide elements with 2 points on each side."
                 )
+            # the two points on each side must be the ends of an edge, not of a diagonal
+            if (index_lo[0, :] != index_lo[1, :]).all():
+                raise ValueError(
+                    "Mid element not consistent. The 2 points on each side must be adjacent."
+                )
 
             # find the indices of edges, for curvature and boundary condition
             #
-- 
2.43.0


From 22c794d11cddccf1e99b5a9182a1190885e4f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 28/41] fix: points on a splitting line stay internal when the
 refinement is outside

---
 src/pymech/meshtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index f2828dd..bb6834a 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -327,7 +327,8 @@ def extrude_refine(
         if k < imesh_high:
 
             def fun_local(xpos, ypos, rlim):
-                return -fun[k](xpos, ypos, rlim)
+                # points on the line itself still belong to the internal side
+                return 1.0 if fun[k](xpos, ypos, rlim) <= 0.0 else -1.0
 
             n_mid = 2 * n_local
             z_mid = z[:: int(2 ** abs(k - imesh_high + 1))]
-- 
2.43.0


From 42380f605b7b90020631ad53440e230ce1ae1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 29/41] fix: update the own element of side conditions in
 extrude_mid

---
 src/pymech/meshtools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index bb6834a..84f426b 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -826,6 +826,13 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][3] = iel + 1 + 4
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][4] = iedgelo + 1
 
+                # update the element that the conditions of side faces belong to.
+                for iell in range(6):
+                    for iface in range(4):
+                        bc = mesh3d.elem[iel + iell].bcs[ibc, iface]
+                        if internal_bcs or bc[1] != 0:
+                            bc[1] = iel + iell + 1
+
                 # update the conditions for side faces.
                 for iface in iedgelat:
                     bc = mesh.elem[i].bcs[ibc, iface][0]
-- 
2.43.0


From fbe61851c920edd58b4194525d31138d8522e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 30/41] fix: no boundary condition inside of split elements
 without internal conditions

---
 src/pymech/meshtools.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 84f426b..bd3abdc 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -826,6 +826,16 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][3] = iel + 1 + 4
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][4] = iedgelo + 1
 
+                else:
+                    # the faces inside of the split element must not keep the condition of the edge
+                    # they are copied from, in case that edge is on the boundary of the domain
+                    for iell in range(6):
+                        iface = iedgelo if iell in (1, 4) else iedgehi
+                        bc = mesh3d.elem[iel + iell].bcs[ibc, iface]
+                        bc[0] = ""
+                        for j in range(1, 8):
+                            bc[j] = 0
+
                 # update the element that the conditions of side faces belong to.
                 for iell in range(6):
                     for iface in range(4):
-- 
2.43.0


From abddb1bfc9086a64404fe7d1058281c42199b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 31/41] fix: readdns reads the header of files with passive
 scalars

---
 src/pymech/simsonsuite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index ccf18d3..c2a108b 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -74,10 +74,8 @@ def readdns(fname):
     pr = np.zeros(nscal)
     m = np.zeros(nscal)
     for i in range(nscal):
-        pr[i] = infile.read(wdsz)
-        pr[i] = struct.unpack(emode + realtype, pr[i])[0]
-        m[i] = infile.read(wdsz)
-        m[i] = struct.unpack(emode + realtype, m[i])[0]
+        pr[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
+        m[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
     #
     # end-of-line
     eol = infile.read(8)
-- 
2.43.0


From 074e9946d1339a65e76b625b206127478b70de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 32/41] fix: readplane reads one- and three-dimensional planes

---
 src/pymech/simsonsuite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index c2a108b..a444cda 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -313,9 +313,9 @@ def readplane(fname):
         # TODO untested
         print("WARNING: reading 1D files was not tested")
         eol = infile.read(4)
-        nt1 = struct.unpack(emode + "i", eol)[0] / 8
+        nt1 = struct.unpack(emode + "i", eol)[0] // 8
         dum = infile.read(nt1 * wdsz)
-        x = struct.unpack(emode + nt1 * realtype, dum)
+        x[:] = struct.unpack(emode + nt1 * realtype, dum)
         #
         # end-of-line
         eol = infile.read(4)
@@ -333,7 +333,7 @@ def readplane(fname):
         print("WARNING: reading 3D files was not tested")
         for i in range(ndim):
             eol = infile.read(4)
-            nt3 = struct.unpack(emode + "i", eol)[0] / 8
+            nt3 = struct.unpack(emode + "i", eol)[0] // 8
             dum = infile.read(nt3 * wdsz)
             xx = struct.unpack(emode + nt3 * realtype, dum)
             x[i, :, :, :] = np.reshape(xx, (nn[0], nn[1], nn[2]), "F")
-- 
2.43.0


From 31fe66a8cfac204535bdd690e08b00c0e1a8c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 33/41] fix: only names that end in a field-file extension are
 claimed

---
 src/pymech/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 70cc958..d81a943 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -20,8 +20,9 @@ nek_ext_pattern = re.compile(
    \.          # character "."
    f           # character "f"
    (\d{5}|ld)  # 5 digits or the characters "ld"
+   \Z          # end of the name
 """,
-    re.VERBOSE,
+    re.VERBOSE | re.DOTALL,
 )
 
 
-- 
2.43.0


From d60f75a9740581472a815aaaec2ffcf6fc0d39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 34/41] fix: elements with points not ordered along the axes
 are refused as datasets

---
 src/pymech/dataset.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index d81a943..55a431f 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -159,10 +159,20 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
         ax = self.axes
         elem = self.elem
 
+        x, y, z = (self.meshgrid_to_dim(mesh) for mesh in elem.pos)
+        # the values keep their places in the element, thus its points have to be
+        # ordered along the axes
+        grid = np.meshgrid(z, y, x, indexing="ij")
+        if not all(
+            np.array_equal(np.round(mesh, 8), np.round(expected, 8))
+            for mesh, expected in zip(elem.pos, reversed(grid))
+        ):
+            raise ValueError("The points of an element are not ordered along the axes")
+
         data_vars = {
-            ax[2]: self.meshgrid_to_dim(elem.pos[0]),  # x
-            ax[1]: self.meshgrid_to_dim(elem.pos[1]),  # y
-            ax[0]: self.meshgrid_to_dim(elem.pos[2]),  # z
+            ax[2]: x,
+            ax[1]: y,
+            ax[0]: z,
             "xmesh": xr.Variable(ax, elem.pos[0]),
             "ymesh": xr.Variable(ax, elem.pos[1]),
             "zmesh": xr.Variable(ax, elem.pos[2]),
-- 
2.43.0


From 5b8c3127cc90700a92ad8358ee47988177cedf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 35/41] fix: hexa2vtk stores one pressure and temperature per
 point

---
 src/pymech/vtksuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 0b08221..c31c0b0 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -131,9 +131,9 @@ def hexa2vtk(field, downsample=False):
             if field.var[1] == 3:
                 v[iarray, :] = field.elem[iel].vel[:, ez, ey, ex]
             if field.var[2] == 1:
-                p[iarray] = field.elem[iel].pres[:, ez, ey, ex]
+                p[iarray] = field.elem[iel].pres[0, ez, ey, ex]
             if field.var[3] == 1:
-                T[iarray] = field.elem[iel].temp[:, ez, ey, ex]
+                T[iarray] = field.elem[iel].temp[0, ez, ey, ex]
             if field.var[4] != 0:
                 S[iarray, :] = field.elem[iel].scal[:, ez, ey, ex]
         if field.var[0] == 3:
-- 
2.43.0


From c106851744fd44de5ab796a2b712667f3caf9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 36/41] fix: hexa2vtk allocates as many points as there are

---
 src/pymech/vtksuite.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index c31c0b0..73af03b 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -91,6 +91,7 @@ def hexa2vtk(field, downsample=False):
     #
     nppel = nix * niy * niz
     nepel = (nix - 1) * (niy - 1) * max((niz - 1), 1)
+    npt = field.nel * nppel
     nel = field.nel * nepel
     #
     if field.ndim == 3:
@@ -107,15 +108,15 @@ def hexa2vtk(field, downsample=False):
     ce[np.arange(nel) * (nvert + 1)] = nvert
 
     if field.var[0] != 0:
-        r = np.zeros((nvert * nel, 3))
+        r = np.zeros((npt, 3))
     if field.var[1] != 0:
-        v = np.zeros((nvert * nel, 3))
+        v = np.zeros((npt, 3))
     if field.var[2] == 1:
-        p = np.zeros(nvert * nel)
+        p = np.zeros(npt)
     if field.var[3] == 1:
-        T = np.zeros(nvert * nel)
+        T = np.zeros(npt)
     if field.var[4] != 0:
-        S = np.zeros((nvert * nel, field.var[4]))
+        S = np.zeros((npt, field.var[4]))
     #
     ice = -(nvert + 1)
 
-- 
2.43.0


From af742fbe393fa3530b8b38430dff939b2bbb19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 37/41] fix: hexa2vtk converts coordinates, velocity and cells
 of 2D fields

---
 src/pymech/vtksuite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 73af03b..b0e4614 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -127,9 +127,9 @@ def hexa2vtk(field, downsample=False):
             iarray = iel * nppel + ix + iy * nix + iz * (nix * niy)
 
             # Downsample copy into a column vector
-            if field.var[0] == 3:
+            if field.var[0] != 0:
                 r[iarray, :] = field.elem[iel].pos[:, ez, ey, ex]
-            if field.var[1] == 3:
+            if field.var[1] != 0:
                 v[iarray, :] = field.elem[iel].vel[:, ez, ey, ex]
             if field.var[2] == 1:
                 p[iarray] = field.elem[iel].pres[0, ez, ey, ex]
@@ -137,7 +137,7 @@ def hexa2vtk(field, downsample=False):
                 T[iarray] = field.elem[iel].temp[0, ez, ey, ex]
             if field.var[4] != 0:
                 S[iarray, :] = field.elem[iel].scal[:, ez, ey, ex]
-        if field.var[0] == 3:
+        if field.var[0] != 0:
             for iz, iy, ix in product(
                 range(max(niz - 1, 1)), range(niy - 1), range(nix - 1)
             ):
-- 
2.43.0


From 2a06809126d54ebcc0960174f3391b3e0c066dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 38/41] fix: cell locations given to VTK count the entries with
 the number of vertices

---
 src/pymech/vtksuite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index b0e4614..1d83af8 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -102,7 +102,7 @@ def hexa2vtk(field, downsample=False):
         cellType = tvtk.Quad().cell_type
     #
     ct = np.array(nel * [cellType])
-    of = np.arange(0, nvert * nel, nvert)
+    of = np.arange(nel) * (nvert + 1)
 
     ce = np.zeros(nel * (nvert + 1))
     ce[np.arange(nel) * (nvert + 1)] = nvert
-- 
2.43.0


From ca018752b1f437c596af02d93c866a86bc9a0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 39/41] fix: write element maps of any integer type as
 four-byte integers

---
 src/pymech/neksuite/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index a17aff4..5d4de92 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -444,8 +444,8 @@ def writenek(fname, data):
     endianbytes = np.array([6.54321], dtype=np.float32)
     correct_endianness(endianbytes).tofile(outfile)
     #
-    # write element map for the file
-    correct_endianness(data.elmap).tofile(outfile)
+    # write element map for the file (always four bytes per element)
+    correct_endianness(np.asarray(data.elmap, dtype=np.int32)).tofile(outfile)
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
-- 
2.43.0


From 837097aec8e1808bf0b837a0d691a2a75b733d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 40/41] fix: extrude meshes whose number of points is a tuple,
 as readnek returns them

---
 src/pymech/meshtools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index bd3abdc..233bc73 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -35,7 +35,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
 
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -216,7 +216,7 @@ def extrude_refine(
     # Consistency checks: Initial grid
     if mesh2D.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh2D.lr1 != [2, 2, 1]:
+    if list(mesh2D.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh2D.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -419,7 +419,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
     # Consistency checks: Initial grid
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
-- 
2.43.0


From e8b11bd933d9bc5743d8f052a294650961165bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:39 +0000
Subject: [PATCH 41/41] fix: rotate_2d also turns the centres of spherical
 ('s') curvature

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 233bc73..6a9396b 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1374,9 +1374,9 @@ def rotate_2d(mesh, x0, y0, theta):
         y = el.pos[1, ...] - y0
         el.pos[0, ...] = x0 + cost * x - sint * y
         el.pos[1, ...] = y0 + sint * x + cost * y
-        # rotate 'm' curvature
+        # rotate 'm' curvature midpoints and 's' curvature centres
         for edge in range(12):
-            if el.ccurv[edge] == "m":
+            if el.ccurv[edge] in ("m", "s"):
                 x = el.curv[edge, 0] - x0
                 y = el.curv[edge, 1] - y0
                 el.curv[edge, 0] = x0 + cost * x - sint * y
-- 
2.43.0

