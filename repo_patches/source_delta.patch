From 0b11e5bbc8f77e8d17993b14c64466156c00df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 01/60] fix: extruded cells are numbered by layer of cells, not
 by number of nodes

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index e3be8d9..303e595 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -435,6 +435,6 @@ class elem_connectivity:
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-                index[i * nelem : (i + 1) * nelem] += i * inodeshift
+                index[i * nelem : (i + 1) * nelem] += i * self.nelem
             newcon.add_elems(_elem.extruded_face[etype], elemcon, indexlist(ilist=index.tolist()))
         return newcon
-- 
2.43.0


From 7c76c8d4f6b407dfe282b5e095bbfa75bd10ed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 02/60] fix: extruding a triangle gives a prism6 element

---
 cfdtools/meshbase/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index be7a482..e72c178 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -7,7 +7,7 @@ geodim = {'point': 0, 'line': 1, 'surface': 2, 'volume': 3}
 elem_properties = [
     (0, '   node1', 1, 0, '    bar2'),
     (0, '    bar2', 2, 1, '   quad4'),
-    (0, '    tri3', 3, 2, '  penta6'),
+    (0, '    tri3', 3, 2, '  prism6'),
     (0, '   quad4', 4, 2, '   hexa8'),
     (0, '  tetra4', 4, 3, '    none'),
     (0, '   pyra5', 5, 3, '    none'),
-- 
2.43.0


From c410d9152d6800e1ccd04f615e0eb9639681a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 03/60] fix: faces of triangular cells are defined without
 reading a GMSH file first

---
 cfdtools/meshbase/_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index e72c178..973bfda 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -62,6 +62,7 @@ def group_faces_by_type(connectivity):
 # see https://cgns.github.io/CGNS_docs_current/sids/conv.html#unst_quad
 # QUAD 4 2D
 cgns_elem2faces = {
+    'tri3': {'bar2': [[0, 1], [1, 2], [2, 0]]},
     'quad4': {'bar2': [[0, 1], [1, 2], [2, 3], [3, 0]]},
 }
 
-- 
2.43.0


From 4d2f00a29729ae3ffc0a40de16094f3757c18be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 04/60] fix: faces of a mesh are found even if a face type has
 no shared (or no boundary) face

---
 cfdtools/meshbase/_connectivity.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 303e595..4862284 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -359,11 +359,13 @@ class elem_connectivity:
             iface2cell = indexindirection()  #
             bface2cell = indexindirection()  #
 
-            def face_from_ufacedict(uface_dict):
-                return np.array(list(map(lambda flist: flist[0][0], uface_dict.values())))
+            def face_from_ufacedict(uface_dict, nnode):
+                faces = list(map(lambda flist: flist[0][0], uface_dict.values()))
+                return np.array(faces, dtype=np.int64).reshape((-1, nnode))  # may be empty
 
             # find pairs for a given face type
             for ftype, listfaces in faces_neighbour.items():
+                nnode = len(listfaces[0][0])
                 nf_all = len(listfaces)
                 # build a dict of "sorted node" face with list of tuple (face, elem)
                 # face_pairs = dict()
@@ -373,14 +375,13 @@ class elem_connectivity:
                 for tface in listfaces:
                     face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST
                 nf_unique = len(face_pairs)
-                assert nf_unique < nf_all
                 assert 2 * nf_unique >= nf_all
                 # extract all unique face
                 #   since reversed when created, boco faces are pointing outward
                 uniqueface_dict = dict(
                     filter(lambda tup: len(tup[1]) == 1, face_pairs.items())
                 )  # tup[1] is the value of key
-                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
+                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict, nnode))
                 f2c = np.full((len(uniqueface_dict), 2), -1)
                 # get index of connected cells
                 f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
@@ -389,7 +390,7 @@ class elem_connectivity:
                 for uface in uniqueface_dict.keys():
                     face_pairs.pop(uface)
                 # get all first face of each pair of tuple (face,ielem)
-                intfaces = face_from_ufacedict(face_pairs)  # 10% COST
+                intfaces = face_from_ufacedict(face_pairs, nnode)  # 10% COST
                 internalfaces.add_elems(ftype, intfaces)
                 # get all elements connections via faces
                 # get index of connected cells # 25% COST
@@ -399,8 +400,9 @@ class elem_connectivity:
                             lambda flist: [flist[0][1], flist[1][1]],
                             face_pairs.values(),
                         )
-                    )
-                )
+                    ),
+                    dtype=np.int64,
+                ).reshape((-1, 2))
                 iface2cell.append(f2c)
 
             return internalfaces, iface2cell, boundaryfaces, bface2cell
-- 
2.43.0


From f8e06f7a641fdb91842279650edea5e207028d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 05/60] fix: face indices imported from a compressed
 connectivity are a flat list

---
 cfdtools/meshbase/_connectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 4862284..0d097fb 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -270,9 +270,9 @@ class elem_connectivity:
         uniq, counts = np.unique(nodeperface, return_counts=True)
         for facesize, nface in zip(uniq, counts):
             typef = _elem.face_from_nnode[facesize]
-            index = np.argwhere(nodeperface == facesize)
+            index = np.flatnonzero(nodeperface == facesize)
             zind = zconn._index[index]
-            nodes = np.hstack(tuple(zconn._value[zind + i] for i in range(facesize)))
+            nodes = np.column_stack(tuple(zconn._value[zind + i] for i in range(facesize)))
             self.add_elems(typef, nodes, indexlist(ilist=index))
 
     # @profile
-- 
2.43.0


From a258a746d60366ead63356bcd6aebed2582065b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 06/60] fix: a connectivity with interleaved element types
 passes its index check

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 0d097fb..f097cb5 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -215,7 +215,7 @@ class elem_connectivity:
         uniq = np.unique(index)
         assert index.min() == 0
         assert index.max() == index.size - 1
-        assert np.all(uniq == index)
+        assert uniq.size == index.size
         return True
 
     # def reindexed_elems(self, etype):
-- 
2.43.0


From f2ecd319cf2c627d06d5f4d5c09b9e233758c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 07/60] fix: all face zones of an IC3 restart are read wherever
 they are in the file

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index a224267..dd872c3 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -319,10 +319,12 @@ class reader(binreader):
         log.info("  Parsing boundary conditions...")
         sys.stdout.flush()
         self.mesh['bocos'] = []  # init list of bocos
+        reset_offset = True  # sections may be in any order
         while True:
             h = restartSectionHeader()
-            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=False):
+            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=reset_offset):
                 break
+            reset_offset = False
             # UGP_IO_FA_ZONE header
             # 3 ints: kind, face range (begin, start)
             self.mesh["params"]["nboco"] += 1
@@ -341,8 +343,6 @@ class reader(binreader):
             #
             boco.properties["slicing"] = np.unique(face2node_value[sta:sto])
             self.mesh['bocos'].append(boco)
-            if h.idata[0] == 6:
-                break
         log.info("end of boundary conditions")
         sys.stdout.flush()
 
-- 
2.43.0


From 74805a4d403ce4e8fa1cc451b8368e0fbefc6d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 08/60] fix: IC3 data sections are located by their type, not
 by matching sizes

---
 cfdtools/ic3/reader_legacy.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index dd872c3..4bf3c5a 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -434,6 +434,18 @@ class reader(binreader):
         # self.get_datacell_properties()["ndof"] = ndof
         return ndof
 
+    def _data_location(self, h):
+        '''location (nodes, faces or cells) of a data section: given by its type and not by its size'''
+        for prefix, location, count in (
+            ("UGP_IO_NO_", "nodes", "no_count"),
+            ("UGP_IO_FA_", "faces", "fa_count"),
+            ("UGP_IO_CV_", "cells", "cv_count"),
+        ):
+            ids = [code for key, code in ic3_restart_codes.items() if key.startswith(prefix)]
+            if h.id[0] in ids and h.idata[0] == self.mesh["params"][count]:
+                return location
+        return None
+
     def _ReadRestartVar(self):
         '''
         Method reading the variables from the restart file
@@ -476,15 +488,16 @@ class reader(binreader):
             typechar = properties_ugpcode[h.id[0]]['structcode']
             typesize = properties_ugpcode[h.id[0]]['size']
             nptype = properties_ugpcode[h.id[0]]['numpytype']
+            location = self._data_location(h)
             #
-            if h.idata[0] == no_count:
+            if location == "nodes":
                 s = BinaryRead(self.fid, "%d" % no_count + typechar, self.byte_swap, typesize * no_count)
                 scalar = self.variables["nodes"][h.name] = np.asarray(s).astype(nptype)
                 self.nodedata.add_data(h.name, scalar)
-            elif h.idata[0] == fa_count:
+            elif location == "faces":
                 s = BinaryRead(self.fid, "%d" % fa_count + typechar, self.byte_swap, typesize * fa_count)
                 scalar = self.variables["faces"][h.name] = np.asarray(s).astype(nptype)
-            elif h.idata[0] == cv_count:
+            elif location == "cells":
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -525,19 +538,20 @@ class reader(binreader):
             ):
                 break
             reset_offset = False
+            location = self._data_location(h)
             #
-            if h.idata[0] == no_count:
+            if location == "nodes":
                 s = BinaryRead(
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
-            elif h.idata[0] == fa_count:
+            elif location == "faces":
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
                     self.fid, "%dd" % (fa_count * 3), self.byte_swap, type2nbytes["float64"] * fa_count * 3
                 )
                 vector = self.variables["faces"][h.name] = np.asarray(s).reshape((fa_count, 3))
-            elif h.idata[0] == cv_count:
+            elif location == "cells":
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
-- 
2.43.0


From 1d6decd5c5dc9ddc09f041068a225ff78adb0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 09/60] fix: node vectors of an IC3 restart are part of the
 exported node data

---
 cfdtools/ic3/reader_legacy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 4bf3c5a..f4bf96e 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -545,6 +545,7 @@ class reader(binreader):
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
+                self.nodedata.add_data(h.name, vector)
             elif location == "faces":
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
-- 
2.43.0


From e1f50156a631f59a16ccf63b9c52ca2bc0dc5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 10/60] fix: statistics weights of an IC3 restart are written
 back

---
 cfdtools/ic3/writerV2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index a7ac120..fbcb48e 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -134,6 +134,9 @@ class writer:
             for key in self.simstate.keys():
                 if key in refdict.keys():
                     self.simstate[key] = refdict[key]
+            # weights of statistics, as named by readers
+            wgt = {key[:-4]: value for key, value in refdict.items() if key.endswith('_wgt')}
+            self.simstate["wgt"] = {**self.simstate["wgt"], **wgt}
 
     def set_vars(self):
         """
-- 
2.43.0


From 7fa04562d806ac77188f71b0a0d64c965b92c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 11/60] fix: GMSH v4 physical groups are looked up among
 entities of the same dimension

---
 cfdtools/gmsh/reader.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1e87df5..a31eac3 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -300,16 +300,15 @@ class reader(api._files):
 
         # To find the entity number used for concatenation of the mesh.
         # The returned values corresponds to the physical group
-        def find_ent(j):
+        def find_ent(dim, j):
             entities = self.__get_section_from_name(msh, "$Entities")
-            addd = 0  # temporary variable to seek the line and return
-            bot = int(entities[0][0]) + int(entities[0][1])
-            top = int(entities[0][2]) + bot
-            for i in range(bot, top + 1):
-                if j == int(entities[i][0]) and len(entities[i]) >= 8:
-                    addd = int(entities[i][8])
-                    break
-            return addd
+            nent = [int(n) for n in entities[0]]  # number of points, curves, surfaces, volumes
+            start = 1 + sum(nent[:dim])
+            iphys = 4 if dim == 0 else 7  # a point has a position, others have a bounding box
+            for line in entities[start : start + nent[dim]]:
+                if j == int(line[0]):
+                    return abs(int(line[iphys + 1])) if int(line[iphys]) > 0 else 0
+            return 0
 
         # Find the coordinates.
         log.info("  parse Nodes")
@@ -345,7 +344,7 @@ class reader(api._files):
             a = int(elements[count][2])  # dimension
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(d)  # Physical group
+            c = find_ent(int(elements[count][0]), d)  # Physical group
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
-- 
2.43.0


From 64b796f8c483ab112e4710f667cad334652c28e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 12/60] fix: GMSH physical names may contain spaces

---
 cfdtools/gmsh/reader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index a31eac3..27e906a 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -250,8 +250,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = ' '.join(families[i][2:])[1:-1]  # name may contain spaces
+                fam[families[i][1]] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
@@ -290,8 +291,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = ' '.join(families[i][2:])[1:-1]  # name may contain spaces
+                fam[families[i][1]] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
-- 
2.43.0


From 71c337a7878e6dc4aa50a6f673f4f5baaf49dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 13/60] fix: GMSH physical groups are identified by both
 dimension and tag

---
 cfdtools/gmsh/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 27e906a..e065889 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -125,7 +125,7 @@ class reader(api._files):
         self._famm = []
         if fam is not None:  # B.C. are defined
             for bnd_tag in bnd.keys():
-                family = fam[str(bnd2fam[bnd_tag])]
+                family = fam.get((self._maxdim - 1, bnd2fam[bnd_tag]), "fluid")  # default is unmarked
                 if family != "fluid":
                     self.__create_bnd(
                         boundaries,
@@ -251,7 +251,7 @@ class reader(api._files):
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
                 name = ' '.join(families[i][2:])[1:-1]  # name may contain spaces
-                fam[families[i][1]] = name
+                fam[(int(families[i][0]), int(families[i][1]))] = name  # a tag may be used for each dimension
                 bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
@@ -292,7 +292,7 @@ class reader(api._files):
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
                 name = ' '.join(families[i][2:])[1:-1]  # name may contain spaces
-                fam[families[i][1]] = name
+                fam[(int(families[i][0]), int(families[i][1]))] = name  # a tag may be used for each dimension
                 bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
-- 
2.43.0


From 15874fecd88a422c1a98a4929a9d0c5440f29593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 14/60] fix: last GMSH v4 block of nodes is read even if it has
 only one node

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index e065889..fb73409 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -316,7 +316,7 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][3])
-        nodes = 1
+        nodes = 0
         count = 1
         counter = 1
         x = [None] * (nnodes)
-- 
2.43.0


From 0d9dd715a322ca7d87fec102e627a2e4c76bb6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 15/60] fix: GMSH nodes are identified by their tags, which may
 be sparse or unsorted

---
 cfdtools/gmsh/reader.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index fb73409..e12bc5d 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -236,6 +236,14 @@ class reader(api._files):
         iend = msh.index(["$End" + sectionName[1:]])
         return msh[ibeg + 1 : iend]
 
+    def __sort_nodes(self, tags, x, y, z, elts):
+        """sort nodes by tags and make tags of elements dense (from 1)"""
+        order = sorted(range(len(tags)), key=tags.__getitem__)
+        newtag = {tags[i]: inode + 1 for inode, i in enumerate(order)}
+        for elt in elts:
+            elt[3 + elt[2] :] = [newtag[tag] for tag in elt[3 + elt[2] :]]
+        return *([c[i] for i in order] for c in (x, y, z)), elts
+
     def __read_sections_V2(self, msh):
         # ------------------------------------------
         # Reading msh file for version 2.0 and below
@@ -266,6 +274,7 @@ class reader(api._files):
         x = [float(coords[i][1]) for i in range(1, nnodes + 1)]
         y = [float(coords[i][2]) for i in range(1, nnodes + 1)]
         z = [float(coords[i][3]) for i in range(1, nnodes + 1)]
+        tags = [int(coords[i][0]) for i in range(1, nnodes + 1)]
 
         # Find the elements.
         log.info("  parse Elements")
@@ -275,7 +284,7 @@ class reader(api._files):
         for i in range(1, nelems + 1):
             elts.append([int(j) for j in elements[i]])
 
-        return fam, bctype, x, y, z, elts
+        return fam, bctype, *self.__sort_nodes(tags, x, y, z, elts)
 
     def __read_sections_V4(self, msh):
         # ------------------------------------------
@@ -315,20 +324,18 @@ class reader(api._files):
         # Find the coordinates.
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
-        nnodes = int(coords[0][3])
+        nnodes = int(coords[0][1])
         nodes = 0
         count = 1
         counter = 1
-        x = [None] * (nnodes)
-        y = [None] * (nnodes)
-        z = [None] * (nnodes)
+        tags, x, y, z = [], [], [], []
         while nodes < nnodes:
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
-                pos = int(coords[i][0]) - 1
-                x[pos] = float(coords[i + cnt][0])
-                y[pos] = float(coords[i + cnt][1])
-                z[pos] = float(coords[i + cnt][2])
+                tags.append(int(coords[i][0]))
+                x.append(float(coords[i + cnt][0]))
+                y.append(float(coords[i + cnt][1]))
+                z.append(float(coords[i + cnt][2]))
             nodes += cnt
             counter = counter + 2 * cnt + 1
 
@@ -357,7 +364,7 @@ class reader(api._files):
                 elts.append(elt1)
             count += nxtrange + 1
 
-        return fam, bctype, x, y, z, elts
+        return fam, bctype, *self.__sort_nodes(tags, x, y, z, elts)
 
     def __read_sections(self, filename):
         # Read the entire mesh.
-- 
2.43.0


From 193b2e6eadc1a6bd3dd41d254eb34ebb0094fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 16/60] fix: node coordinates given as lists can be scaled and
 morphed

---
 cfdtools/meshbase/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index a4b57bf..e880799 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -132,9 +132,9 @@ class Mesh:
     def set_nodescoord_xyz(self, x, y, z):
         for c in [x, y, z]:
             assert len(c) == self.nnode
-        self._nodes['x'] = x
-        self._nodes['y'] = y
-        self._nodes['z'] = z
+        self._nodes['x'] = np.asarray(x)
+        self._nodes['y'] = np.asarray(y)
+        self._nodes['z'] = np.asarray(z)
 
     def nodescoord(self, ndarray=False):
         coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
-- 
2.43.0


From 5b69c2bc52513ab7f9b2fdca6a7a9ad042c0686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 17/60] fix: cfdinfo accepts CGNS files

---
 cfdtools/cgns/cgns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 40a6306..bb0397a 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -146,8 +146,9 @@ class cgnsfile(h5File):
 
 @fileformat_reader('CGNS', '.cgns')
 class cgnsMesh:
-    def __init__(self, filename) -> None:
+    def __init__(self, filename, cIntegrity=False) -> None:
         self._filename = filename
+        self.check_integrity = cIntegrity
         self._ncell = None
 
     @property
-- 
2.43.0


From 7f76c918c5f6b6339f1c43c2b4588fb1931e9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 18/60] fix: CGNS cells are numbered from 0 even if other
 elements come first

---
 cfdtools/cgns/cgns.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index bb0397a..eaddb78 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -71,13 +71,16 @@ class cgnszone:
 
     def elemcon(self, geodim):
         cellconn = _conn.elem_connectivity()
-        for _, elements in self._elems.items():
+        for elements in sorted(self._elems.values(), key=lambda elems: elems["ElementRange/ data"][0]):
             cgnstype = elements[" data"][0]
             etype = ele_cgns2local[cgnstype]
             nnode = _elem.nnode_elem[etype]
             # extract cell connectivity only
             if _elem.dim_elem[etype] == geodim:
-                index = _conn.indexlist(irange=elements["ElementRange/ data"][:] - 1)
+                # cells are numbered from 0, whatever the range of their (and other) sections
+                index = None
+                if geodim != self._geodim:
+                    index = _conn.indexlist(irange=elements["ElementRange/ data"][:] - 1)
                 econ = elements["ElementConnectivity/ data"][:].reshape((-1, nnode))
                 econ -= 1  # shift node index (starts 0)
                 cellconn.add_elems(etype, econ, index)
-- 
2.43.0


From 94811b6366aa09267160fe80efffa32668a2aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 19/60] fix: CGNS boundary conditions of the same family are
 merged

---
 cfdtools/cgns/cgns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index eaddb78..76ef15f 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -208,6 +208,9 @@ class cgnsMesh:
             if boco.type in ['internal']:
                 log.info(f"  filter internal mark {boco.name}")
             else:
+                if boco.name in meshdata._bocos:  # several BC with the same family
+                    nodes = meshdata.seekmark(boco.name).index + boco.index
+                    boco.index = _conn.indexlist(ilist=sorted(set(nodes.list())))
                 log.info(f"  add boco {boco}")
                 meshdata.add_boco(boco)
         # meshdata.check()
-- 
2.43.0


From bb7dcb1226e33e8c33e584022bc86ca93409a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 20/60] fix: removed node or cell data are actually removed
 from the mesh

---
 cfdtools/data.py           | 3 +++
 cfdtools/meshbase/_mesh.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ed853a8..6e24f09 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -105,6 +105,9 @@ class DataSet(DataSetBase):
     def __getitem__(self, name):
         return self._data[name]
 
+    def pop(self, name):
+        return self._data.pop(name)
+
     def dtstats(self, imin=None, imax=None):
         assert self.Trep == 'timeevol' and 'time' in self.keys()
         t = self._data['time'][imin:imax]
diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index e880799..9bbe25f 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -323,7 +323,7 @@ class Mesh:
         return self._nodedata.pop(name) if name in self._nodedata.keys() else None
 
     def pop_celldata(self, name):
-        return self._celldata.data[name] if self._celldata else None
+        return self._celldata.pop(name) if name in self._celldata.keys() else None
 
     def reindex_boundaryfaces(self):
         assert (
-- 
2.43.0


From dbffa6d62431a7c985ee44805f9d274fa33285ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 21/60] fix: option --remove-node-data is not ignored

---
 cfdtools/_cli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 044cf32..78c18d2 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -225,6 +225,12 @@ def write_generic(argv, ext, writer, fname=None):
                 log.info(f"  cannot find cell data {var}")
             else:
                 log.info(f"  pop cell data {var}")
+    if parser.args().remove_node_data:
+        for var in parser.args().remove_node_data:
+            if cfdmesh.pop_nodedata(var) is None:
+                log.info(f"  cannot find node data {var}")
+            else:
+                log.info(f"  pop node data {var}")
     #
     if parser.args().outpath is None:
         file.remove_dir()
-- 
2.43.0


From b6a2020ac040a149b8d705c258c780e46116f4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 22/60] fix: time of a data set is kept even if it is zero

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 6e24f09..d1d9171 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -84,7 +84,7 @@ class DataSet(DataSetBase):
         self._data = dict()
 
     def add_data(self, name, data, time=None):
-        if time:
+        if time is not None:
             self._properties['time'] = time
         self._data[name] = data
 
@@ -178,7 +178,7 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
-        if time:
+        if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
 
-- 
2.43.0


From 0b281ba140fbe41af60a21036d8ebbdeeda9d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 23/60] fix: nodes of a data set can be set with y and z arrays

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index d1d9171..15bfd07 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -66,9 +66,9 @@ class DataSetBase:
     def set_nodes(self, x, y=None, z=None):
         """ """
         self._geoprop['x'] = x
-        if y:
+        if y is not None:
             self._geoprop['y'] = y
-        if z:
+        if z is not None:
             self._geoprop['z'] = z
 
     def set_mesh(self, mesh):
-- 
2.43.0


From cf3909a523362334d183d73297c0b927de93910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 24/60] fix: filter of data to process is not modified and may
 not include time

---
 cfdtools/data.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 15bfd07..5474c07 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -127,16 +127,14 @@ class DataSet(DataSetBase):
         f = fftm.fftfreq(n, dtavg)
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrum')
         newdataset.add_data('freq', f)
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter or self.keys()) if name != 'time']
         for name in datalist:
             newdataset.add_data(name, np.abs(fftm.fft(self[name])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
         lowcrop = 2
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter or self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
@@ -183,8 +181,7 @@ class DataSetList(DataSetBase):
         self._datalist.append(datalist)
 
     def dataSet(self, datafilter=None):
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter or self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
-- 
2.43.0


From a8e163e19c3eca2cd4c91c6ba6cf0d42dd817c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 25/60] fix: spectrum is computed on the requested range of
 data

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 5474c07..7ceaeb4 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -129,7 +129,7 @@ class DataSet(DataSetBase):
         newdataset.add_data('freq', f)
         datalist = [name for name in (datafilter or self.keys()) if name != 'time']
         for name in datalist:
-            newdataset.add_data(name, np.abs(fftm.fft(self[name])))
+            newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
-- 
2.43.0


From d2b354070d1123e4331807ffea37cf46401bb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 26/60] fix: number of spectrogram windows is consistent with
 the number of samples

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 7ceaeb4..fe0e4d1 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -143,7 +143,7 @@ class DataSet(DataSetBase):
         hwin = int(nwind / 2)
         f = fftm.fftfreq(nwind, dtavg)
         newdataset.add_data('freq', f[lowcrop : hwin + 1])
-        nit = int(2 * ntot / nwind) - 1
+        nit = (ntot - 1) // hwin - 1  # each window uses 2*hwin+1 samples
         newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])
         for name in datalist:
             v = np.zeros((nit, hwin + 1 - lowcrop))
-- 
2.43.0


From 26ff072af5a7bc06bcad8179dae28e4934946abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 27/60] fix: spectrogram frequencies are those of the windows

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index fe0e4d1..0cacbc1 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -141,8 +141,8 @@ class DataSet(DataSetBase):
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrogram')
         nwind = window if window else int(ntot / 100)
         hwin = int(nwind / 2)
-        f = fftm.fftfreq(nwind, dtavg)
-        newdataset.add_data('freq', f[lowcrop : hwin + 1])
+        f = fftm.rfftfreq(2 * hwin + 1, dtavg)
+        newdataset.add_data('freq', f[lowcrop:])
         nit = (ntot - 1) // hwin - 1  # each window uses 2*hwin+1 samples
         newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])
         for name in datalist:
-- 
2.43.0


From b06f86dfa4ccfc6accc7ef09380be310ce12be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 28/60] fix: cell volumes can be requested several times

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c2d25ad..24c97a2 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -169,7 +169,7 @@ class vtkMesh:
         return lines
 
     def volumes(self):
-        if not self._volume:
+        if self._volume is None:
             self._volume = self._grid.compute_cell_sizes().cell_data["Volume"]
         return self._volume
 
-- 
2.43.0


From 620e408bad03b249b187b769cad7f556df81f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 29/60] fix: probe maps can be plotted with matplotlib >= 3.9

---
 cfdtools/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/plot.py b/cfdtools/plot.py
index 6e378e3..1eb09a5 100644
--- a/cfdtools/plot.py
+++ b/cfdtools/plot.py
@@ -3,8 +3,8 @@ import matplotlib
 
 
 def normalizeCmap(cmapStr, nBins):
-    colormap = matplotlib.cm.get_cmap(cmapStr, nBins)
+    colormap = matplotlib.colormaps[cmapStr].resampled(nBins)
     if isinstance(colormap, matplotlib.colors.LinearSegmentedColormap):
         return matplotlib.colors.LinearSegmentedColormap(cmapStr, segmentdata=colormap._segmentdata, N=nBins)
     else:
-        return matplotlib.colors.ListedColormap(matplotlib.cm.get_cmap(cmapStr, nBins).colors)
+        return matplotlib.colors.ListedColormap(colormap.colors)
-- 
2.43.0


From 3fc987da13e4c56301198c9b7f0c3c9701868a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 30/60] fix: names of probe variables to plot may have several
 characters

---
 cfdtools/probes/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 8a3e373..153c665 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -29,7 +29,7 @@ def check_axis(axisdata):
 def plot_timemap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')  # name of the only variable to plot
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".time.png"
     fig = plt.figure(1, figsize=(10, 8))
@@ -63,7 +63,7 @@ def plot_timemap(data, **kwargs):
 def plot_freqmap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')  # name of the only variable to plot
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".freq.png"
     t = data.alldata["time"]
-- 
2.43.0


From dfdd6439f2fe19cbe1643f356e33ccbdb0ef8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 31/60] fix: a mesh read from IC3 V4 (without partition) can be
 written to IC3 V2/V3

---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index fce4423..1057406 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -137,7 +137,7 @@ class reader:
         meshdata.set_facedata(self.facedata)
         meshdata.set_params(self.mesh['params'])
         meshdata.update_params(self.simulation_state)
-        if 'partition' in self.mesh.keys():
+        if self.mesh['partition'] is not None:
             meshdata.set_partition(self.mesh['partition'])
         return meshdata
 
-- 
2.43.0


From 0e8e5349764d1a2e91429cdb0042a01f684190d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 32/60] fix: number of cells of an IC3 V4 mesh is known even
 without solution file

---
 cfdtools/ic3/readerV4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 1057406..5122c4b 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -109,6 +109,8 @@ class reader:
             log.info("Reading connectivity...")
             self._read_connectivity(fid)
 
+        self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
+
         if self._solution_filename is None:
             return
 
@@ -120,8 +122,6 @@ class reader:
             log.info("Reading informative values...")
             self._read_informative_values(fid)
 
-            self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
-
     def export_mesh(self):
         """Export Mesh."""
         meshdata = _mesh.Mesh(self.mesh['params']['cv_count'], self.mesh['params']['no_count'])
-- 
2.43.0


From 0940042f64746fee5b35a47aed10185afb042108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 33/60] fix: data packed from grids of mixed cell types follow
 the order of dumped cells

---
 cfdtools/vtk/_vtkList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index e89705e..3bb4ced 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -60,6 +60,10 @@ class vtkList:
         Tsort = api.Timer()
         Tread.start()
         self._mesh = pv.read(self._list[0])
+        if np.any(np.diff(self._mesh.celltypes.astype(int)) < 0):
+            # cells are dumped by type: sort them first, then all data will be reordered
+            order = np.argsort(self._mesh.celltypes, kind='stable')
+            self._mesh = vtkMesh(pvmesh=self._mesh).vtk_extract_cells(order).pyvista_grid
         self._ncell = self._mesh.n_cells
         ctrRef = self._mesh.cell_centers().points
         Tread.pause()
-- 
2.43.0


From 6a616be8fcb442fbd972634947e5f314917a7957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 34/60] fix: integrity sections are checked exactly, not within
 a tolerance

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index f4bf96e..178eef2 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -213,7 +213,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_NO_CHECK"]
                 s = BinaryRead(self.fid, "%di" % no_count, self.byte_swap, type2nbytes["int32"] * no_count)
                 nodes_id = np.asarray(s)
-                assert np.allclose(nodes_id, np.arange(no_count))
+                assert np.array_equal(nodes_id, np.arange(no_count))
                 log.info("end of node integrity")
                 sys.stdout.flush()
                 del nodes_id
@@ -224,7 +224,7 @@ class reader(binreader):
                 h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_FA_CHECK"])
                 s = BinaryRead(self.fid, "%di" % fa_count, self.byte_swap, type2nbytes["int32"] * fa_count)
                 faces_id = np.asarray(s)
-                assert np.allclose(faces_id, np.arange(fa_count))
+                assert np.array_equal(faces_id, np.arange(fa_count))
                 log.info("end of face integrity")
                 sys.stdout.flush()
                 del faces_id
@@ -237,7 +237,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_CV_CHECK"]
                 s = BinaryRead(self.fid, "%di" % cv_count, self.byte_swap, type2nbytes["int32"] * cv_count)
                 cells_id = np.asarray(s)
-                assert np.allclose(cells_id, np.arange(cv_count))
+                assert np.array_equal(cells_id, np.arange(cv_count))
                 log.info("end of cell integrity")
                 sys.stdout.flush()
                 del cells_id
-- 
2.43.0


From fe6f5bb2b54863ecc4b8bd83ad7154eb98ff79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 35/60] fix: a mesh with integer coordinates can be extruded

---
 cfdtools/meshbase/_mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 9bbe25f..d25e186 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -127,14 +127,14 @@ class Mesh:
     def set_nodescoord_nd(self, xyz: np.ndarray):
         assert xyz.shape[0] == self.nnode
         for i, c in enumerate(['x', 'y', 'z']):
-            self._nodes[c] = xyz[:, i]
+            self._nodes[c] = np.asarray(xyz[:, i], dtype=float)
 
     def set_nodescoord_xyz(self, x, y, z):
         for c in [x, y, z]:
             assert len(c) == self.nnode
-        self._nodes['x'] = np.asarray(x)
-        self._nodes['y'] = np.asarray(y)
-        self._nodes['z'] = np.asarray(z)
+        self._nodes['x'] = np.asarray(x, dtype=float)
+        self._nodes['y'] = np.asarray(y, dtype=float)
+        self._nodes['z'] = np.asarray(z, dtype=float)
 
     def nodescoord(self, ndarray=False):
         coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
-- 
2.43.0


From 52b5b7ca956a33d5164cd5ce270d2281e15ce895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 36/60] fix: more than two connectivities can be merged

---
 cfdtools/meshbase/_connectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index f097cb5..3311ba3 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -290,9 +290,9 @@ class elem_connectivity:
             np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])
             for elemcon in list_elem
         ]
-        sizes = [0] + sizes[:-1]  # start with 0, last is useless
+        shifts = np.cumsum([0] + sizes[:-1], dtype=int).tolist()  # start with 0, last is useless
         mergedict = defaultdict(dict)
-        for shift, elemcon in zip(sizes, list_elem):
+        for shift, elemcon in zip(shifts, list_elem):
             for key, elemtype in elemcon.items():
                 if key in mergedict.keys():
                     mergedict[key]['index'] = mergedict[key]['index'] + elemtype['index'].shift(shift)
-- 
2.43.0


From 94b18fb0decaab767b3946a5386491e001f29788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 37/60] fix: GMSH boundary elements of the same entity may be
 in different physical groups

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index e12bc5d..e0f1d73 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -96,7 +96,7 @@ class reader(api._files):
                     ntag = elt[2]  # expected to be 2
                     # bnd_tag = elt[2 + tag]
                     # bnd_fam = elt[2 + tag - 1]
-                    bnd_tag = elt[4]
+                    bnd_tag = (elt[3], elt[4])  # elements of an entity may be in different groups
                     bnd_fam = elt[3]
                     if bnd_tag not in connect_bc.keys():
                         connect_bc[bnd_tag] = collections.defaultdict(list)
-- 
2.43.0


From f233f7a91eb2a1103f1e076a7d11793ff0f77b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 38/60] fix: a VTK file with a repeated or missing cell is not
 packed with other cells

---
 cfdtools/vtk/_vtkList.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 3bb4ced..f95b98f 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -96,9 +96,6 @@ class vtkList:
                 #     log.info(f"  . {name}: {d}")
                 Tsort.start()
                 dfinal, index = tree.query(ctr, p=2) # p=2 is the norm
-                # reverse indexing to sort new arrays
-                rindex = index.copy()
-                rindex[index] = np.arange(index.size)
                 dmin, davg, dmax = maths.minavgmax(dfinal)
                 if dmax > tolverbose:
                     log.warning(f"  max distance if above tolerance {tolverbose}: {np.count_nonzero(dfinal > tolverbose)} cells incriminated")
@@ -107,6 +104,11 @@ class vtkList:
                     log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                     log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                     raise ValueError("  max distance is above tolerance")
+                if not np.array_equal(np.sort(index), np.arange(self._ncell)):
+                    raise ValueError("  cells do not match one by one those of the first grid")
+                # reverse indexing to sort new arrays
+                rindex = index.copy()
+                rindex[index] = np.arange(index.size)
                 Tsort.pause()
                 # automatically deals with different shapes
                 datalist = {name: vtk.cell_data[name][rindex] for name in namelist}
-- 
2.43.0


From f80b94cfc9249adb67790b2d546a0b44196cc89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 39/60] fix: cells imported from HDF5 are in the order of the
 dumped data

---
 cfdtools/vtk/_vtk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 24c97a2..9d0eb43 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -140,7 +140,8 @@ class vtkMesh:
         assert hgroup.attrs['meshtype'] in ('unsmesh',)
         points = np.array(hgroup["nodes"])
         celldict = {vtktype_ele[etype]: np.array(elem2node) for etype, elem2node in hgroup["cells"].items()}
-        self.set_pvmesh(pv.UnstructuredGrid(celldict, points))
+        # groups are in alphabetical order, cells (and data) are dumped in the order of VTK types
+        self.set_pvmesh(pv.UnstructuredGrid({itype: celldict[itype] for itype in sorted(celldict)}, points))
 
     def xdmf_content(self, filename):
         """Create the XDMF content associated to the mesh.
-- 
2.43.0


From cd4c38ce77766cf63c01a943cfdfebdfba0cc3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 40/60] fix: a plane with a repeated cell is not averaged with
 values of another column

---
 cfdtools/vtk/_vtk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 9d0eb43..1460266 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -325,6 +325,9 @@ class vtkMesh:
                         log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                         log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                         raise ValueError("  max distance is above tolerance")
+                    if np.unique(index).size != chunksize:
+                        log.error("  several cells of a plane match the same cell of the first plane")
+                        raise ValueError("  several cells of a plane match the same cell of the first plane")
                     ikplanes[i, index] = chunk
         # check
         # shape of xypos[ikplanes] is (nchunk, chunksize, 2)
-- 
2.43.0


From 85fcf0721a758452f8e2e2545a7561562e4e0232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 41/60] fix: probe maps accept an axis with several lines

---
 cfdtools/probes/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 153c665..ed821fe 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -15,7 +15,7 @@ def check_axis(axisdata):
         axis = np.mean(axisdata, axis=0)
         # print(axis.shape)
         err = np.mean(axisdata**2, axis=0) - axis**2
-        log.info(f"min:avg:max change of several axis {err.shape}: {list(*minavgmax(err))}")
+        log.info(f"min:avg:max change of several axis {err.shape}: {list(minavgmax(err))}")
         log.warning(
             "several lines for axis: they are merged (average change is {:.2e})".format(
                 np.sqrt(np.mean(np.abs(err)))
-- 
2.43.0


From 5b195a710f2f9bdec1949cd8f0172ae2642e7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 42/60] fix: an existing XMF file is not overwritten by the
 dump of a series

---
 cfdtools/vtk/_vtkList.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index f95b98f..1ae7f07 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -136,10 +136,10 @@ class vtkList:
         self._data.set_mesh(vtkmesh.export_mesh())
         actual_filename = self._data.dumphdf(filename, overwrite=overwrite, **options)
         if xdmf:
-            self._dumpxdmf(actual_filename, vtkmesh, self._data)
+            self._dumpxdmf(actual_filename, vtkmesh, self._data, overwrite=overwrite)
         return actual_filename
 
-    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList):
+    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList, overwrite: bool = False):
         """Create the XMF file associated to the single HDF5 file created by dumphdf()."""
 
         def xdmf_domain(content):
@@ -157,5 +157,8 @@ class vtkList:
         content = xdmf_domain(geom_dat_content)
 
         # write the XMF file
-        with open(os.path.splitext(filepath)[0] + ".xmf", "w") as fid:
+        xmffile = api._files(os.path.splitext(filepath)[0] + ".xmf")
+        if not overwrite:
+            xmffile.find_safe_newfile()
+        with open(xmffile.filename, "w") as fid:
             fid.write('\n'.join(content))
-- 
2.43.0


From 7fd47311579c91a7f00aa5e3c0e0c63a25e3f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 43/60] fix: an HDF5 file opened for writing knows its type and
 can print its information

---
 cfdtools/hdf5/_hdf5.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index 39220d0..65c8386 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -28,6 +28,8 @@ class h5File(_files):
         self._openedmode = None
         self._datatype = None
         self._cfdtools_version = None
+        self._h5ver = None
+        self._version = None
 
     def open(self, mode='r', datatype=None, version=None):
         """open hdf5 file and parse some version info
@@ -48,6 +50,10 @@ class h5File(_files):
                 error_stop('an existing cfdtools datatype must provide a version number for writing')
             if datatype is not None:
                 self._h5file.attrs.update({'data_version': version})
+            self._h5ver = None
+            self._datatype = datatype
+            self._cfdtools_version = __version__
+            self._version = version
         elif mode in ('r', 'r+'):
             # only for cgns file (I guess)
             self._h5ver = self._h5file.get(' hdf5version', None)
-- 
2.43.0


From 1dae7403a00e61bf00f38ff91eef7476b1b3e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 44/60] fix: information of IC3 readers lists cell variables

---
 cfdtools/ic3/readerV4.py      | 2 +-
 cfdtools/ic3/reader_legacy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 5122c4b..08d67df 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -90,7 +90,7 @@ class reader:
             else:
                 api._printreadable('  mesh.' + key, item)
         log.info("- variable properties")
-        for key, item in self.variables.items():
+        for key, item in {**self.variables, 'cells': self.celldata}.items():
             for key2, value in item.items():
                 api._printreadable('variables.' + key + '.' + key2, value)
                 # for key3,value3 in value.items():
diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 178eef2..19555fc 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -92,7 +92,7 @@ class reader(binreader):
             else:
                 api._printreadable('  mesh.' + key, item)
         log.info("- variable properties")
-        for key, item in self.variables.items():
+        for key, item in {**self.variables, 'cells': self.celldata}.items():
             for key2, value in item.items():
                 api._printreadable('variables.' + key + '.' + key2, value)
                 # for key3,value3 in value.items():
-- 
2.43.0


From 338de1562ac2cb44941d45f673f5e7464da056fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 45/60] fix: the mark of unmarked faces does not replace a mark
 of the same name

---
 cfdtools/meshbase/_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index d25e186..777084b 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -233,6 +233,8 @@ class Mesh:
             list_marked = self.list_boco_index()
             list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))
             if list_missing:
+                while name in self._bocos:  # do not replace an existing mark
+                    name += '_'
                 boco = submeshmark(name)
                 boco.geodim = 'bdface'
                 boco.type = 'boundary'
-- 
2.43.0


From c8269e399157069497dbd5e04e4c05db72976bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 46/60] fix: end planes of an extruded mesh do not replace
 marks of the same name

---
 cfdtools/meshbase/_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 777084b..70002dc 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -288,6 +288,8 @@ class Mesh:
             newboco.index = _conn.indexlist(ilist=index.tolist())
             newmesh.add_boco(newboco)
         # create initial 2D domain as boco
+        while domain + '0' in newmesh._bocos or domain + '1' in newmesh._bocos:
+            domain += '_'  # do not replace an existing mark
         newboco = submeshmark(name=domain + '0')
         newboco.geodim = 'bdnode'
         newboco.type = 'boundary'
-- 
2.43.0


From 5cc7b3ea79797a0e57b65d859a4bb726d7eb1f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 47/60] fix: --check is applied by conversion tools too, as by
 cfdinfo

---
 cfdtools/_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 78c18d2..bfbe812 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -212,7 +212,7 @@ def write_generic(argv, ext, writer, fname=None):
     log.info(f"> read mesh file {file.filename}")
     timer = api.Timer()
     timer.start()
-    r = parser._reader(file.filename)
+    r = parser._reader(file.filename, cIntegrity=parser.args().check)
     r.read_data()
     ncell = r.ncell
     timer.stop(nelem=ncell)
-- 
2.43.0


From b6980f5c9a1941485c48bc7df0f77d8c89e0a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 48/60] fix: ranges printed for a vector are those of each of
 its components

---
 cfdtools/ic3/reader_legacy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 19555fc..ff1413d 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -48,7 +48,14 @@ def print_stats_vector(name, dnp):
     for component in range(dnp.shape[1]):
         log.info(
             "  %s%s%s:  %+.5e / %+.5e / %+.5e (min/mean/max)."
-            % (name, "-%d" % component, ' ' * (20 - len(name)), dnp.min(), np.mean(dnp), dnp.max())
+            % (
+                name,
+                "-%d" % component,
+                ' ' * (20 - len(name)),
+                dnp[:, component].min(),
+                np.mean(dnp[:, component]),
+                dnp[:, component].max(),
+            )
         )
 
 
-- 
2.43.0


From bd7b0179075bd9d78342fd90ba2fcc291a8f5b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:32 +0000
Subject: [PATCH 49/60] fix: keep CGNS boundary conditions of the same name in
 different groups

---
 cfdtools/cgns/cgns.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 76ef15f..21819d6 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -51,9 +51,9 @@ class cgnszone:
         self._zonebc = dict_cgnstype(zone, b'ZoneBC_t')
         self._zonebc.update(dict_cgnstype(zone, b"ZoneGridConnectivity_t"))
         self._BCs = {}
-        for zbc in self._zonebc.values():
-            self._BCs.update(dict_cgnstype(zbc, b'BC_t'))
-            self._BCs.update(dict_cgnstype(zbc, b'GridConnectivity_t'))
+        for zname, zbc in self._zonebc.items():  # names are only unique in their group
+            for cgtype in (b'BC_t', b'GridConnectivity_t'):
+                self._BCs.update({f"{zname}/{name}": bc for name, bc in dict_cgnstype(zbc, cgtype).items()})
 
     @property
     def nnode(self):
-- 
2.43.0


From 08d1dec2cb9cd4572773fc4b6304f9bceca636e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:04 +0000
Subject: [PATCH 50/60] fix: refuse files without the IC3 magic number

---
 cfdtools/ic3/_ic3.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cfdtools/ic3/_ic3.py b/cfdtools/ic3/_ic3.py
index 14558a0..d61122c 100644
--- a/cfdtools/ic3/_ic3.py
+++ b/cfdtools/ic3/_ic3.py
@@ -405,12 +405,14 @@ class binreader(api._files):
         if s[0] != ic3_restart_codes["UGP_IO_MAGIC_NUMBER"]:
             # Change the flag
             self.byte_swap = True
-            # Transform the second integer of the list to match the version number
-            aux_struct = struct.Struct(">i")
-            packed_version = aux_struct.pack(s[1])
+            # Transform both integers of the list
+            aux_struct = struct.Struct(">ii")
+            packed_header = aux_struct.pack(*s)
             del aux_struct
-            aux_struct = struct.Struct("<i")
-            s[1] = aux_struct.unpack(packed_version)[0]
+            aux_struct = struct.Struct("<ii")
+            s = list(aux_struct.unpack(packed_header))
+            if s[0] != ic3_restart_codes["UGP_IO_MAGIC_NUMBER"]:
+                api.error_stop(f"Fatal error. {self.filename!r} is not an IC3 restart file. Exiting.")
 
         # Some info for the user
         self.ic3_version = s[1]
-- 
2.43.0


From eb107d6ea3adfbb0c871160e47c9a0e24782a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:29 +0000
Subject: [PATCH 51/60] fix: special characters of names are escaped in XDMF
 files

---
 cfdtools/data.py         | 6 ++++--
 cfdtools/vtk/_vtk.py     | 5 +++--
 cfdtools/vtk/_vtkList.py | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 0cacbc1..7f66f87 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -1,4 +1,5 @@
 import logging
+from xml.sax.saxutils import escape
 
 import numpy as np
 import numpy.fft as fftm
@@ -229,9 +230,10 @@ class DataSetList(DataSetBase):
                     raise ValueError(f"Type of data cannot be deduced with shape dimension {len(var.shape)}")
                 dim = " ".join(str(j) for j in var.shape)
 
-                lines += [f'<Attribute AttributeType="{typ}" Center="Cell" Name="{vname}">']
+                attname = escape(vname, {'"': "&quot;"})
+                lines += [f'<Attribute AttributeType="{typ}" Center="Cell" Name="{attname}">']
                 lines += [f'<DataItem Dimensions="{dim}" Format="HDF">']
-                lines += [f"{filename}:/datalist/i{i:06}/{vname}"]
+                lines += [escape(f"{filename}:/datalist/i{i:06}/{vname}")]
                 lines += ["</DataItem>"]
                 lines += ["</Attribute>"]
             lines += ["</Grid>"]
diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 1460266..613b1be 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -2,6 +2,7 @@ import logging
 import numpy as np
 import scipy.spatial as spatial
 from typing import Callable
+from xml.sax.saxutils import escape
 
 try:
     import pyvista as pv
@@ -154,7 +155,7 @@ class vtkMesh:
         geomtype = dim2type[self._grid.points.shape[1]]
         lines = [f'<Geometry GeometryType="{geomtype}">']
         lines += [f'<DataItem Dimensions="{np.prod(self._grid.points.shape)}" Format="HDF">']
-        lines += [f"{filename}:/mesh/nodes"]
+        lines += [escape(f"{filename}:/mesh/nodes")]
         lines += ["</DataItem>"]
         lines += ["</Geometry>"]
 
@@ -163,7 +164,7 @@ class vtkMesh:
                 f'<Topology NumberOfElements="{cellco.shape[0]:d}" TopologyType="{PYVISTA2XDMF[itype]}">'
             ]
             lines += [f'<DataItem Dimensions="{np.prod(cellco.shape)}" Format="HDF">']
-            lines += [f"{filename}:/mesh/cells/{ele_vtktype[itype]}"]
+            lines += [escape(f"{filename}:/mesh/cells/{ele_vtktype[itype]}")]
             lines += ["</DataItem>"]
             lines += ["</Topology>"]
 
diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 1ae7f07..f07fb9c 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -160,5 +160,5 @@ class vtkList:
         xmffile = api._files(os.path.splitext(filepath)[0] + ".xmf")
         if not overwrite:
             xmffile.find_safe_newfile()
-        with open(xmffile.filename, "w") as fid:
+        with open(xmffile.filename, "w", encoding="utf-8") as fid:
             fid.write('\n'.join(content))
-- 
2.43.0


From 5dc60ab5cf24431e1aef506172ad945df5bd52b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 52/60] fix: IC3 V4 labels may have non-ASCII characters

---
 cfdtools/ic3/writerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index dfdc07f..3b3b3c3 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -173,7 +173,7 @@ class writer(writerV2.writer):
         min_range.append(ifmax)
 
         dt = h5py.string_dtype(encoding='utf-8', length=128)
-        bnd_group.create_dataset('labels', len(labels), dtype=dt, data=labels)
+        bnd_group.create_dataset('labels', len(labels), dtype=dt, data=[label.encode('utf-8') for label in labels])
         bnd_group.create_dataset('offsets', len(min_range), dtype='i4', data=min_range)
         bnd_group.create_dataset('kinds', len(kinds), dtype='i4', data=kinds)
 
-- 
2.43.0


From c0b2b6ba504fff08e67d38352cb344c7197b4678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 53/60] fix: extract cells of more than 255 points

---
 cfdtools/vtk/_vtk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 613b1be..7509c81 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -213,7 +213,7 @@ class vtkMesh:
             #
             new_celltypes = [ celltypes[cid] for cid in selected_cell_ids ]
             extract_vtex = np.concatenate([orig_cells[offsets[cid]+cid+1:offsets[cid+1]+cid+1] for cid in selected_cell_ids])
-            nvtex = np.array([orig_cells[offsets[cid]+cid] for cid in selected_cell_ids], dtype=np.uint8)
+            nvtex = np.array([orig_cells[offsets[cid]+cid] for cid in selected_cell_ids], dtype=np.int64)
             used_point_ids = list(set(extract_vtex))
             # Create mapping for point ID reindexing
             point_id_map = {old: new for new, old in enumerate(used_point_ids)}
@@ -224,7 +224,7 @@ class vtkMesh:
             for size in nvtex:
                 vtk_cells[i] = size
                 vtk_cells[i+1:i+1+size] = new_vtex[j:j+size]
-                i += np.int64(size) + 1 # size + 1, size is uint8
+                i += np.int64(size) + 1
                 j += np.int64(size)
             new_celltypes = np.array(new_celltypes, dtype=np.uint8) # cell type is small
             new_points = points[used_point_ids, :]
-- 
2.43.0


From f714de02122b1a323c146f428bd37a23e206f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:11 +0000
Subject: [PATCH 54/60] fix: a dictionary given to a data list is not modified
 nor shared between steps

---
 cfdtools/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 7f66f87..07fa803 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -177,6 +177,7 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
+        datalist = dict(datalist)
         if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
-- 
2.43.0


From 086ffb1b7ba1a1bdfa1a2238a274811ed778e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:13 +0000
Subject: [PATCH 55/60] fix: a timer can be stopped for no element

---
 cfdtools/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/api.py b/cfdtools/api.py
index 165a0f2..bddba86 100644
--- a/cfdtools/api.py
+++ b/cfdtools/api.py
@@ -155,7 +155,7 @@ class Timer:  # from https://realpython.com/python-timer/
         if nelem is not None:
             self._nelem = nelem
         self.pause()
-        normalized_time_ms = 0.0 if self._nelem is None else 1e6 * self._elapsed / self._nelem
+        normalized_time_ms = 0.0 if not self._nelem else 1e6 * self._elapsed / self._nelem
 
         # There was a print, line is restarted
         self._ncol = 0
-- 
2.43.0


From c1b7ec5dc1042de160dd9b7499bf6b4ca860f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:52 +0000
Subject: [PATCH 56/60] fix: read GMSH 4 files without the optional $Entities
 section

---
 cfdtools/gmsh/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index e0f1d73..17dd627 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -312,6 +312,8 @@ class reader(api._files):
         # To find the entity number used for concatenation of the mesh.
         # The returned values corresponds to the physical group
         def find_ent(dim, j):
+            if ["$Entities"] not in msh:  # optional section
+                return 0
             entities = self.__get_section_from_name(msh, "$Entities")
             nent = [int(n) for n in entities[0]]  # number of points, curves, surfaces, volumes
             start = 1 + sum(nent[:dim])
-- 
2.43.0


From c6ea8ff1121ca1f1e8351ec05448d4a11498e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:06 +0000
Subject: [PATCH 57/60] fix: adding elements to a connectivity does not extend
 the index list given with the first ones

---
 cfdtools/meshbase/_connectivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 3311ba3..dc1e418 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -178,7 +178,8 @@ class elem_connectivity:
 
     def add_elems(self, etype: str, elem2node: np.ndarray, index: indexlist = None):
         dim = elem2node.shape[0]
-        ind = indexlist(irange=[self._nelem, self._nelem + dim - 1]) if index is None else index
+        # copy of given index, which may be extended later
+        ind = indexlist(irange=[self._nelem, self._nelem + dim - 1]) if index is None else index.shift(0)
         self._nelem += dim
         if etype in self.elems():
             self._elem2node[etype]['index'].append(ind.list())
-- 
2.43.0


From 3a230a393258bd3392f625187b651bfe5ff7b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:43 +0000
Subject: [PATCH 58/60] fix: prisms are named Wedge in XDMF files

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 7509c81..7606692 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -37,7 +37,7 @@ if importpyvista:
         CellType.HEXAHEDRON: "Hexahedron",
         CellType.TETRA: "Tetrahedron",
         CellType.PYRAMID: "Pyramid",
-        CellType.WEDGE: "Prism",
+        CellType.WEDGE: "Wedge",
     }
 else:
     log.warning("pyvista missing or failing at import: some features will be missing.")
-- 
2.43.0


From c4b73d07c0ab56b16d380e2bbec9c14aa90d26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:43 +0000
Subject: [PATCH 59/60] fix: XDMF file refers to the HDF5 file beside it, not
 relative to the current folder

---
 cfdtools/vtk/_vtkList.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index f07fb9c..19a1d63 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -150,10 +150,12 @@ class vtkList:
             lines += ["</Xdmf>"]
             return lines
 
+        # references are relative to the folder of the XMF file, which is the one of the HDF5 file
+        h5name = os.path.basename(filepath)
         # get the XDMF content for the mesh geometry and topology
-        geometry_content = vtkmesh.xdmf_content(filepath)
+        geometry_content = vtkmesh.xdmf_content(h5name)
         # get the XDMF content for the time data series
-        geom_dat_content = data.xdmf_content(filepath, geometry_content)
+        geom_dat_content = data.xdmf_content(h5name, geometry_content)
         content = xdmf_domain(geom_dat_content)
 
         # write the XMF file
-- 
2.43.0


From b7d6bcc185397b9e6f35c724da8da433c361d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:32 +0000
Subject: [PATCH 60/60] fix: CGNS zones of all bases are found, with the
 dimension of their base

---
 cfdtools/cgns/cgns.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 21819d6..4117325 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -166,17 +166,23 @@ class cgnsMesh:
         self._file = cgnsfile(self._filename)
         # get BASE list
         self._bases = self._file.list_bases()
+        self._zones = {}
+        basedim = {}
         for base in self._bases:
             # print('base', self._file._h5file[base].name, self._file._h5file[base][" data"][:])
-            self._zones = dict_cgnstype(self._file._h5file[base], b'Zone_t')
-        # geo dimension from base
-        self._geodim = self._file._h5file[self._bases[0]][" data"][0]
+            for zname, zonenode in dict_cgnstype(self._file._h5file[base], b'Zone_t').items():
+                if zname in self._zones:  # names are only unique in their base
+                    zname = f"{base}/{zname}"
+                self._zones[zname] = zonenode
+                basedim[zname] = self._file._h5file[base][" data"][0]
         if zone is None:
             assert len(self._zones) == 1, "Multiple zones found, must specify which zone to export"
             name = list(self._zones.keys())[0]
         else:
             name = zone
         self._zonename = name
+        # geo dimension from base
+        self._geodim = basedim[name]
         self._zone = cgnszone(self._zones[name], self._geodim)
         self._ncell = self._zone.ncell
 
-- 
2.43.0

