From 3c3e5c954fd84924db99e15397631b3eb1f8bc1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 01/42] fix: order plane waves on a grid that tells largest and
 smallest G apart (VASP coefficients)

---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 85bf2b4..bc665d1 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0)
+    ng = igall.max(axis=0) - igall.min(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From f08d52a54d67b069681066e9552164eb1beada72 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 02/42] fix: use the inverse rotation in the phase of
 symm_matrix, as symm_eigenvalues does

---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index bc665d1..b4f8ba4 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -414,7 +414,7 @@ def symm_matrix(
         Bloch Hamiltonian :math:`H(k)`.
     """
     npw1 = igall.shape[1]
-    multZ = np.exp(-1.0j * (2 * np.pi * A.dot(T).dot(igall[:3, :] + K[:, None])))
+    multZ = np.exp(-1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None])))
     igrot = transformed_g(K, igall, RecLattice, A)
     if spinor:
         WF1 = np.stack([WF[:, igrot], WF[:, igrot + npw1]], axis=2).conj()
-- 
2.43.0


From 443f7975c361e73dd243f5141f0c56a17ff518c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 03/42] fix: error message of transformed_g raised TypeError
 instead of the RuntimeError

---
 irrep/gvectors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index b4f8ba4..4853383 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -304,10 +304,9 @@ def transformed_g(kpt, ig, RecLattice, A):
                     "Not pair found for the g-vector igTr[{i}]={igtr}"
                     .format(i=i, igtr=igTr[:,i]) +
                     "obtained when transforming the g-vector ig[{i}]={ig} "
-                    .format(i=i, ig=ig[:3,i] +
+                    .format(i=i, ig=ig[:3,i]) +
                     "with the matrix {B}, where B=inv(A).T with A={A}"
                     .format(B=B, A=A)
-                )
             )
     return rotind
 
-- 
2.43.0


From 82779b8910cfc02d7bd1580712b02aba192a19ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 04/42] fix: read any k-point of a WFK file, in any order
 (skipping used the target's sizes and one band record)

---
 irrep/readfiles.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 5682ee6..c1f7342 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -299,6 +299,9 @@ class ParserAbinit():
         self.spinor = spinor
         self.npwarr = npwarr
         self.kpt = kpt
+        # position of the first k-point's block: 5 records of the header, one per
+        # pseudopotential and two more if PAW
+        self.first_kpt_record = 5 + npsp + (2 if usepaw == 1 else 0)
         return (nband, nkpt, rprimd, ecut, spinor, typat, xred, efermi)
 
     def parse_kpoint(self, ik):
@@ -319,6 +322,11 @@ class ParserAbinit():
 
         nspinor = 2 if self.spinor else 1
 
+        # Go back to the first k-point if the block of ik was already passed
+        if ik < self.kpt_count:
+            self.fWFK.goto_record(self.first_kpt_record)
+            self.kpt_count = 0
+
         # We need to skip lines in fWFK until we reach the lines of ik
         for i in range(self.kpt_count, ik+1):
 
@@ -330,13 +338,13 @@ class ParserAbinit():
             # 1st record: npw, nspinor, nband
             record = record_abinit(self.fWFK, "i4")  # [0]
             npw, nspinor_loc, nband = record
-            assert npw == self.npwarr[ik], ("Different number of plane waves "
+            assert npw == self.npwarr[i], ("Different number of plane waves "
                                             "in header and k-point's block. "
                                             "Probably a bug in Abinit...")
             assert nspinor_loc == nspinor, ("Different values of nspinor in "
                                             "header and k-point's block. "
                                             "Probably a bug in Abinit...")
-            assert nband == self.nband[ik], ("Different number of bands in "
+            assert nband == self.nband[i], ("Different number of bands in "
                                              "header and k-point's block. "
                                              "Probably a bug in Abinit...")
 
@@ -351,7 +359,8 @@ class ParserAbinit():
 
             # 4th record: coefficients of expansions in plane waves
             if skip:
-                record = record_abinit(self.fWFK, "f8")
+                for iband in range(nband):
+                    record = record_abinit(self.fWFK, "f8")
             else:
                 CG = np.zeros((nband, npw * nspinor), dtype=complex)
                 for iband in range(nband):
-- 
2.43.0


From d61f40d168e1b4e954f2219740b7a0814751fa02 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 05/42] fix: without -kpnames the last energy level of every
 k-point was not printed

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 0d6a2d7..91273e5 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -663,7 +663,7 @@ class Kpoint:
 
         self.onlytraces = irreptable is None
         if self.onlytraces:
-            irreps = ["None"] * (len(self.degeneracies) - 1)
+            irreps = ["None"] * len(self.degeneracies)
 
         else:
 
-- 
2.43.0


From 845863600971f70e29c221e8f62720e7dc728796 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 06/42] fix: wcc() took the angle of the (values, vectors)
 tuple instead of the eigenvalues

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7ba4f8b..62f2188 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -794,7 +794,7 @@ class BandStructure:
             np.dot,
             [functools.reduce(np.dot, np.linalg.svd(O)[0:3:2]) for O in overlaps],
         )
-        return np.sort((np.angle(np.linalg.eig(wilson)) / (2 * np.pi)) % 1)
+        return np.sort((np.angle(np.linalg.eigvals(wilson)) / (2 * np.pi)) % 1)
 
     def write_plotfile(self, filename='bands-tognuplot.dat'):
         """
-- 
2.43.0


From e9167461c162819e5c360aaa9d082769cbb40201 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 07/42] fix: zakphase() used an attribute that k-points do not
 have

---
 irrep/bandstructure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 62f2188..289ed1e 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -751,7 +751,7 @@ class BandStructure:
         print("overlaps")
         for O in overlaps:
             print(np.abs(O[0, 0]), np.angle(O[0, 0]))
-        print("   sum  ", np.sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
+        print("   sum  ", sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
         #        overlaps.append(self.kpoints[-1].overlap(self.kpoints[0],g=np.array( (self.kpoints[-1].K-self.kpoints[0].K).round(),dtype=int )  )  )
         nmax = np.min([o.shape for o in overlaps])
         # calculate zak phase in incresing dimension of the subspace (1 band,
@@ -759,16 +759,16 @@ class BandStructure:
         z = np.angle(
             [[la.det(O[:n, :n]) for n in range(1, nmax + 1)] for O in overlaps]
         ).sum(axis=0) % (2 * np.pi)
-        #        print (np.array([k.Energy[1:] for k in self.kpoints] ))
-        #        print (np.min([k.Energy[1:] for k in self.kpoints],axis=0) )
+        #        print (np.array([k.Energy_raw[1:] for k in self.kpoints] ))
+        #        print (np.min([k.Energy_raw[1:] for k in self.kpoints],axis=0) )
         emin = np.hstack(
-            (np.min([k.Energy[1:nmax] for k in self.kpoints], axis=0), [np.inf])
+            (np.min([k.Energy_raw[1:nmax] for k in self.kpoints], axis=0), [np.inf])
         )
-        emax = np.max([k.Energy[:nmax] for k in self.kpoints], axis=0)
+        emax = np.max([k.Energy_raw[:nmax] for k in self.kpoints], axis=0)
         locgap = np.hstack(
             (
                 np.min(
-                    [k.Energy[1:nmax] - k.Energy[0 : nmax - 1] for k in self.kpoints],
+                    [k.Energy_raw[1:nmax] - k.Energy_raw[0 : nmax - 1] for k in self.kpoints],
                     axis=0,
                 ),
                 [np.inf],
-- 
2.43.0


From f1f996f393d0eefb04814b7081aadfa76f68faf6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 08/42] fix: translations read from a symmetry file had the
 opposite sign of those written

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index cf9830d..a7919aa 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1413,5 +1413,5 @@ def cart_to_crystal(rot_cart, trans_cart, lattice, alat):
     rot_crystal = np.array([(lat_inv.T @ rot @  lattice.T) for rot in rot_cart])
     assert np.allclose(rot_crystal, np.round(rot_crystal)), f"rotations are not integers in crystal coordinates : {rot_crystal}"
     rot_crystal = np.round(rot_crystal).astype(int)
-    trans_crystal = trans_cart @ lat_inv * alat * BOHR
+    trans_crystal = - trans_cart @ lat_inv * alat * BOHR  # operations in the file act as rR - t
     return rot_crystal , trans_crystal 
\ No newline at end of file
-- 
2.43.0


From 07ec2235fb9102e838c17a316fa2dc59d6600d8b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 09/42] fix: plane-wave energies of Quantum Espresso used 1/2
 for the Bohr radius, misplacing the cutoff

---
 irrep/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 289ed1e..83af2cc 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -26,7 +26,7 @@ from .readfiles import ParserAbinit, ParserVasp, ParserEspresso, ParserW90
 from .kpoint import Kpoint
 from .spacegroup import SpaceGroup
 from .gvectors import sortIG, calc_gvectors
-from .utility import log_message
+from .utility import log_message, BOHR
 
 
 class BandStructure:
@@ -341,7 +341,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
                 log_message(msg, v, 2)
                 WF, Energy, kg, kpt = parser.parse_kpoint(ik, NBin, spin_channel, v=v)
-                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice/2.0, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'wannier90':
                 kpt = kpred[ik]
-- 
2.43.0


From 075c457326135765a16b9a3563542dbdfbcb161a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 10/42] fix: energies of the requested spin channel (Quantum
 Espresso lists up and dw levels together)

---
 irrep/readfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index c1f7342..073912a 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -700,6 +700,10 @@ class ParserEspresso:
 
         # Parse energy levels
         Energy = np.array(kptxml.find("eigenvalues").text.split(), dtype=float)
+        if spin_channel == "up":  # levels of both channels are listed, first up
+            Energy = Energy[:NBin]
+        elif spin_channel == "dw":
+            Energy = Energy[-NBin:]
         Energy *= Hartree_eV
 
         # Open file with the wave functions
-- 
2.43.0


From 1b6fda2f1a6b89b7b3b6a4bd416c2ce8f1191c19 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 11/42] fix: Wannier90 plane waves inside the cutoff were lost
 when |g1|+|g2|+|g3| exceeded half of the grid

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 83af2cc..771214e 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -351,7 +351,7 @@ class BandStructure:
                                    self.RecLattice,
                                    self.Ecut,
                                    spinor=self.spinor,
-                                   nplanemax=np.max([ngx, ngy, ngz]) // 2,
+                                   nplanemax=(ngx + ngy + ngz) // 2 + 1,
                                    v=v
                                    )
                 selectG = tuple(kg[0:3])
-- 
2.43.0


From 26e9118112b9c47580e68543439bfcba1964a349 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 12/42] fix: mp_grid separated by blanks was rejected in
 wannier90.win

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 073912a..091a176 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -804,7 +804,7 @@ class ParserW90:
             EF = self.get_param("fermi_energy", float, None)
         except RuntimeError:
             EF = None
-        self.NK = np.prod(np.array(self.get_param("mp_grid", str).split(), dtype=int))
+        self.NK = np.prod(np.array(self.get_param("mp_grid", str, join=True).split(), dtype=int))
 
         return self.NK, self.NBin, self.spinor, EF
 
-- 
2.43.0


From 404b0746c2d0fb346897f7ae1fdb718a7337c32a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 13/42] fix: wrong arguments of log_message on a malformed
 POSCAR line

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 091a176..ff92636 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -457,7 +457,7 @@ class ParserVasp:
                 positions[i] = np.array(l.split()[:3])
                 i += 1
             except Exception as err:
-                log_message(err, msg, 1)
+                log_message(str(err), v, 1)
                 pass
         if sum(nat) != i:
             raise RuntimeError(
-- 
2.43.0


From aa9dcc42051cff213dbcd31acee2ebd5b1a6bf58 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 14/42] fix: BandStructure modified the caller's list of
 k-points

---
 irrep/bandstructure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 771214e..b2ed67d 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -304,8 +304,7 @@ class BandStructure:
         if kplist is None:
             kplist = range(NK)
         else:
-            kplist -= 1
-            kplist = np.array([k for k in kplist if k >= 0 and k < NK])
+            kplist = np.array([k - 1 for k in kplist if k >= 1 and k <= NK])
 
         # Parse wave functions at each k-point
         self.kpoints = []
-- 
2.43.0


From 3a1f6b5b7d081f85ffd5b96463c21d426bfc47f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 15/42] fix: matching of spinor rotations gave up at random (11
 random starts are too few for cubic groups)

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index a7919aa..5ceb3cf 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -934,7 +934,7 @@ class SpaceGroup():
             """
             return residue_matrix(RR(x)) / len(S1)
 
-        for i in range(11):
+        for i in range(200):
             x0 = np.random.random(2 * n * n)
             res = minimize(residue, x0)
             r = res.fun
-- 
2.43.0


From 73803b2feff0b223eb242fc032a2302b0ca67c2e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 16/42] fix: options -trans_thresh and -alat were not passed to
 the calculation

---
 irrep/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index e755bfe..0844952 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -378,7 +378,9 @@ def cli(
         degen_thresh=degenthresh,
         save_wf=save_wf,
         v=v,
-        from_sym_file=from_sym_file
+        alat=alat,
+        from_sym_file=from_sym_file,
+        trans_thresh=trans_thresh
     )
 
     bandstr.spacegroup.show()
-- 
2.43.0


From ea97e8e649dfd1aa7a27f55570216eecc7f4716e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 17/42] fix: labels of k-points were missing in
 irrep-output.json and -symmetries was taken for labels

---
 irrep/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 0844952..8633976 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -412,7 +412,7 @@ def cli(
     # Temporary, until we make it valid for isymsep
     json_data = {}
     json_data ["spacegroup"] = bandstr.spacegroup.json(symmetries=symmetries)
-    json_bandstr = bandstr.json()
+    json_bandstr = bandstr.json(kpnames)
     json_data['characters and irreps'] = [{"subspace": json_bandstr}]
 
     # Separate in terms of symmetry eigenvalues
@@ -439,7 +439,7 @@ def cli(
                     ),
                 )
                 sub.write_characters()
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(symmetries)})
+                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json()})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0


From 2957ce6d69c3ab7cdaf4e049a0151c84ca2427dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 18/42] fix: separation by several symmetries, and separation
 without grouping Kramers pairs, failed

---
 irrep/cli.py    |  2 +-
 irrep/kpoint.py | 46 +++++++++++++++++++++++++++-------------------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 8633976..d8b9c73 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -421,8 +421,8 @@ def cli(
     if isymsep is not None:
         json_data["separated by symmetry"]=True
         json_data["separating symmetries"]=isymsep
-        tmp_subbands = {}
         for isym in isymsep:
+            tmp_subbands = {}
             print("\n-------- SEPARATING BY SYMMETRY # {} --------".format(isym))
             for s_old, bs in subbands.items():
                 separated = bs.Separate(isym, degen_thresh=degenthresh, groupKramers=groupkramers, v=v)
diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 91273e5..8a0e1c9 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -18,7 +18,7 @@
 
 from functools import lru_cache
 import numpy as np
-import numpy.linalg as la
+from scipy.linalg import schur
 import copy
 from .gvectors import symm_eigenvalues, symm_matrix
 from .utility import compstr, is_round, format_matrix, log_message
@@ -288,9 +288,12 @@ class Kpoint:
         # Sort energy levels
         sortE = np.argsort(E)
         other.Energy_mean = E[sortE]
+        other.Energy_raw = E[sortE]
         other.WF = WF[sortE]
         other.num_bands = len(E)
         inds = inds[sortE]
+        # Blocks of states that come from the same energy level
+        other.borders = np.hstack([[0], np.where(np.diff(inds) != 0)[0] + 1, [len(E)]])
 
         # Do not group by degeneracy of energy-levels for printing
         other.degeneracies = [1] * other.num_bands
@@ -499,19 +502,21 @@ class Kpoint:
         eigenvectors = []
         inds_states = []
         Eloc = []
-        for istate, num_states in  enumerate(self.degeneracies):
-            b1 = self.borders[istate]
-            b2 = self.borders[istate+1]
-            inds_states += [istate] * num_states  # index for set of states
-            W, V = la.eig(S[b1:b2, b1:b2])
-            for w, v in zip(W, V.T):
-                eigenvalues.append(w)
+        istates = np.repeat(np.arange(len(self.degeneracies)), self.degeneracies)
+        for b1, b2 in zip(self.borders, self.borders[1:]):
+            istate = istates[b1]
+            inds_states += [istate] * (b2 - b1)  # index for set of states
+            # Schur vectors are orthonormal also for repeated eigenvalues
+            T, V = schur(S[b1:b2, b1:b2], output='complex')
+            W = np.diag(T)
+            for val, vec in zip(W, V.T):
+                eigenvalues.append(val)
                 Eloc.append(self.Energy_mean[istate])
                 eigenvectors.append(
-                    np.hstack((np.zeros(b1), v, np.zeros(self.num_bands - b2)))
+                    np.hstack((np.zeros(b1), vec, np.zeros(self.num_bands - b2)))
                 )
         w = np.array(eigenvalues)
-        v = np.array(eigenvectors).T # each col an eigenvector
+        vecs = np.array(eigenvectors).T # each col an eigenvector
         Eloc = np.array(Eloc)
         inds_states = np.array(inds_states)
 
@@ -529,7 +534,7 @@ class Kpoint:
             # Sort based on real part of eigenvalues
             arg = np.argsort(np.real(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
             inds_states = inds_states[arg]
             borders = np.hstack(
@@ -539,31 +544,34 @@ class Kpoint:
             # Probably this if-else statement can be removed
             if len(borders) > 0:
                 for b1, b2 in zip(borders, borders[1:]):
-                    v1 = v[:, b1:b2]
+                    v1 = vecs[:, b1:b2]
                     subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
             else:
-                v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), degen_thresh=degen_thresh, inds_states=inds_states)
+                v1 = vecs
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         else:  # don't group Kramers pairs
             
             # Sort based on the argument of eigenvalues
             arg = np.argsort(np.angle(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
+            inds_states = inds_states[arg]
             borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
 
             if len(borders) > 0:
                 for b1, b2 in zip(borders, np.roll(borders, -1)):
-                    v1 = np.roll(v, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
+                    v1 = np.roll(vecs, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
                     subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
-                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
+                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands],
+                        WF=v1.T.dot(self.WF),
+                        inds=np.roll(inds_states, -b1)[: (b2 - b1) % self.num_bands]
                     )
 
             else:
-                v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
+                v1 = vecs
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         return subspaces
 
-- 
2.43.0


From a6fc2df7b6519b62b9f4ae234ce588d6370b2d7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 19/42] fix: Abinit lattice vectors are given in Bohr but were
 reported and used as Angstrom

---
 irrep/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index b2ed67d..58c40e8 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -195,6 +195,7 @@ class BandStructure:
              typat,
              positions,
              EF_in) = parser.parse_header(v=v)
+            self.Lattice = self.Lattice * BOHR  # WFK files use Bohr, the rest of the code Angstrom
             NBin = max(nband)
 
         elif code == "espresso":
@@ -334,7 +335,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}: {kpt}'
                 log_message(msg, v, 2)
                 WF, Energy, kg = parser.parse_kpoint(ik)
-                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'espresso':
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
-- 
2.43.0


From dbfc58ee9be4931e08395f1999ceff784c1df878 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 20/42] fix: print the vectors of the reference cell (rows of
 refUC^T Lattice)

---
 irrep/spacegroup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 5ceb3cf..7217b9b 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -749,8 +749,7 @@ class SpaceGroup():
         print('')
 
         # Print cell vectors in DFT and reference cells
-        vecs_refUC = np.dot(self.Lattice, self.refUC).T
-        #vecs_refUC = np.dot(self.refUC, self.Lattice)
+        vecs_refUC = np.dot(self.refUC.T, self.Lattice)
         print('Cell vectors in angstroms:\n')
         print('{:^32}|{:^32}'.format('Vectors of DFT cell', 'Vectors of REF. cell'))
         for i in range(3):
-- 
2.43.0


From a3d04df64ea7d05b2d694d585ee6e811cd7f1401 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 21/42] fix: print atomic positions of the reference cell with
 respect to its origin

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 7217b9b..4018e47 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -764,7 +764,7 @@ class SpaceGroup():
         # Print atomic positions
         print('Atomic positions in direct coordinates:\n')
         print('{:^} | {:^25} | {:^25}'.format('Atom type', 'Position in DFT cell', 'Position in REF cell'))
-        positions_refUC = self.positions.dot(np.linalg.inv(self.refUC.T))
+        positions_refUC = (self.positions - self.shiftUC).dot(np.linalg.inv(self.refUC.T))
         for itype, pos1, pos2 in zip(self.typat, self.positions, positions_refUC):
             s = '{:^9d}'.format(itype)
             s += ' | '
-- 
2.43.0


From 98d37962db8ebd69dd26dee78d6cc7933c776f89 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 22/42] fix: the space-group number in the header of a table of
 irreps was never checked

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 61743d8..0cf712b 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -340,7 +340,7 @@ class IrrepTable:
         while len(lines) > 0:
             l = lines.pop().strip().split("=")
             # logger.debug(l,l[0].lower())
-            if l[0].lower() == "SG":
+            if l[0].lower() == "sg":
                 assert int(l[1]) == self.number
             elif l[0].lower() == "name":
                 self.name = l[1]
-- 
2.43.0


From 630a0f9237ea5ff3f5cec440043d4dd9a32c7ace Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 23/42] fix: POSCAR scale factor applies to Cartesian
 positions, and is the volume if negative; K means Cartesian

---
 irrep/readfiles.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index ff92636..882dd53 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -430,8 +430,11 @@ class ParserVasp:
         fpos = (l.strip() for l in open(self.fPOS))
         title = next(fpos)  # title
         del title
-        lattice = float(
-            next(fpos)) * np.array([next(fpos).split() for i in range(3)], dtype=float)
+        scale = float(next(fpos))
+        lattice = np.array([next(fpos).split() for i in range(3)], dtype=float)
+        if scale < 0:  # it is the volume of the cell
+            scale = (-scale / abs(np.linalg.det(lattice)))**(1/3)
+        lattice *= scale
         try:
             nat = np.array(next(fpos).split(), dtype=int)
         except BaseException:
@@ -443,7 +446,7 @@ class ParserVasp:
         if l[0] in ['s', 'S']:
             l = next(fpos)
         cartesian=False
-        if l[0].lower()=='c':
+        if l[0].lower() in ('c', 'k'):
             cartesian=True
         elif l[0].lower()!='d':
             raise RuntimeError(
@@ -464,7 +467,7 @@ class ParserVasp:
                 "not all atomic positions were read : {0} of {1}".format(
                     i, sum(nat)))
         if cartesian:
-            positions = positions.dot(np.linalg.inv(lattice))
+            positions = (positions * scale).dot(np.linalg.inv(lattice))
         return lattice, positions, typat
 
     def parse_header(self):
-- 
2.43.0


From af2356297ba6c486390fa047c2e45c1e365c4f97 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 24/42] fix: malformed atomic positions in POSCAR were skipped
 or filled by broadcasting

---
 irrep/readfiles.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 882dd53..f2e221f 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -456,12 +456,13 @@ class ParserVasp:
         for l in fpos:
             if i >= sum(nat):
                 break
-            try:
-                positions[i] = np.array(l.split()[:3])
-                i += 1
-            except Exception as err:
-                log_message(str(err), v, 1)
-                pass
+            words = l.split()
+            if len(words) == 0:
+                continue
+            if len(words) < 3:
+                raise RuntimeError(f"malformed atomic position in POSCAR: {l}")
+            positions[i] = np.array(words[:3], dtype=float)
+            i += 1
         if sum(nat) != i:
             raise RuntimeError(
                 "not all atomic positions were read : {0} of {1}".format(
-- 
2.43.0


From 753735b27e0bb8786e93bfdb325b9b497ac99b2a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 25/42] fix: comments after a value in wannier90.win were taken
 as part of it

---
 irrep/readfiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index f2e221f..8e77a6f 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -777,11 +777,11 @@ class ParserW90:
     def __init__(self, prefix):
 
         self.prefix = prefix
-        self.fwin = [l.strip().lower() for l in open(prefix + ".win").readlines()]
+        self.fwin = [l.split("!")[0].split("#")[0].strip().lower() for l in open(prefix + ".win").readlines()]
         self.fwin = [
             [s.strip() for s in split(l)]
             for l in self.fwin
-            if len(l) > 0 and l[0] not in ("!", "#")
+            if len(l) > 0
         ]
         self.ind = np.array([l[0] for l in self.fwin])
         self.iterwin = iter(self.fwin)
-- 
2.43.0


From bc188c531d95c1b624ddc2c81a91ff6657d28d24 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 26/42] fix: atoms_cart in wannier90.win with a unit line, or
 before the lattice

---
 irrep/readfiles.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 8e77a6f..05b893f 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -880,10 +880,16 @@ class ParserW90:
                                 self.prefix
                             ))
                     found_atoms = True
+                    cartesian = l[1][6:10] == "cart"
+                    unit_atoms = 1.0
                     positions = []
                     nameat = []
                     while True:
                         l1 = next(self.iterwin)
+                        if cartesian and len(l1) == 1 and l1[0] in ("bohr", "ang"):
+                            if l1[0] == "bohr":
+                                unit_atoms = BOHR
+                            continue
                         if l1[0] == "end":
                             if l1[1] != l[1]:
                                 raise RuntimeError(
@@ -898,8 +904,9 @@ class ParserW90:
                     typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
-                    if l[1][6:10] == "cart":  # from cartesian to direct coords
-                        positions = positions.dot(np.linalg.inv(lattice))
+
+        if cartesian:  # from cartesian to direct coords
+            positions = (positions * unit_atoms).dot(np.linalg.inv(lattice))
 
         return lattice, positions, typat, kpred
 
-- 
2.43.0


From 23bcca4d61b1a3825da55e7d6604377d877d82c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 27/42] fix: k-points with less than three coordinates in
 wannier90.win were filled by broadcasting

---
 irrep/readfiles.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 05b893f..37eca32 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -867,7 +867,12 @@ class ParserW90:
                             ))
                     kpred = np.zeros((self.NK, 3), dtype=float)
                     for i in range(self.NK):
-                        kpred[i] = next(self.iterwin)[:3]
+                        l1 = next(self.iterwin)
+                        if len(l1) < 3:
+                            raise RuntimeError(
+                                "malformed k-point '{}' in {}.win".format(" ".join(l1), self.prefix)
+                            )
+                        kpred[i] = l1[:3]
                     self.check_end("kpoints")
 
                 # Parse atomic positions
-- 
2.43.0


From 0fe461b56e657bc888cd4fb2022b5c4b9fd7e354 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 28/42] fix: -zak stopped after the first subspace of separated
 bands

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index d8b9c73..1f6e66e 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -458,7 +458,7 @@ def cli(
                         n=n + 1, z=z / np.pi, gap=gw, cent=gc, lg=lgw
                     )
                 )
-            exit()
+        exit()
 
     if wcc:
         for k in subbands:
-- 
2.43.0


From 14aa6f6843d5e4f3411b5a49f31d65ccc180a540 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 29/42] fix: refuse Gamma-only wave functions of Quantum
 Espresso

Half of the plane waves are stored in such files. They were read as if they
were complete, so that traces of operations that preserve the half space
stored were wrong.
---
 irrep/readfiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 37eca32..209d7ab 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -719,6 +719,9 @@ class ParserEspresso:
 
         rec = record_abinit(fWFC, "i4,3f8,i4,i4,f8")[0]
         kpt = rec[1]  # cartesian coords of k-point
+        if rec[3] != 0:
+            raise RuntimeError("wave functions were calculated with the Gamma-point trick (gamma_only), "
+                               "which stores half of the plane waves. This is not supported")
 
         rec = record_abinit(fWFC, "4i4")
         igwx = rec[1]
-- 
2.43.0


From 1fd66de4e19f553e59f32b3c68d971e59d9cc9f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 30/42] fix: equal input gives equal spinor signs and irrep
 labels (own random generator)

---
 irrep/spacegroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 4018e47..040b46b 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -933,8 +933,10 @@ class SpaceGroup():
             """
             return residue_matrix(RR(x)) / len(S1)
 
+        # own generator, so that equal input gives equal signs (and labels)
+        rng = np.random.RandomState(0)
         for i in range(200):
-            x0 = np.random.random(2 * n * n)
+            x0 = rng.random_sample(2 * n * n)
             res = minimize(residue, x0)
             r = res.fun
             if r < 1e-4:
-- 
2.43.0


From 6b800ba3d9cdf57709c5c5689266eca19c7bcc40 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 31/42] fix: states with complex symmetry eigenvalues were
 dropped when Kramers pairs are grouped

---
 irrep/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 58c40e8..1975b8f 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -690,8 +690,8 @@ class BandStructure:
                     other.kpoints = []
                     for K in kpseparated:
                         vk = list(K.keys())
-                        vk0 = vk[np.argmin(np.abs(v - vk))]
-                        if abs(vk0 - v) < 0.05:
+                        vk0 = vk[np.argmin(np.abs(v - np.real(vk)))]
+                        if abs(np.real(vk0) - v) < 0.05:
                             other.kpoints.append(K[vk0])
                     subspaces[v] = other # unnecessary indent ?
                 return subspaces
-- 
2.43.0


From 79cb3501d87e22a5c7e51101ea8f27fc095daadd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 32/42] fix: -isymsep with several symmetries failed

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 1f6e66e..be0f01f 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -353,7 +353,7 @@ def cli(
     if kpnames:
         kpnames = kpnames.split(",")
 
-    if isymsep or wcc or zak:
+    if isymsep is not None or wcc or zak:
         save_wf = True
     else:
         save_wf = False
-- 
2.43.0


From d9dce537e68a200838fe5a078939c8192ea4aecb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 33/42] fix: complex symmetry eigenvalues could not be written
 to the JSON file

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index be0f01f..e57bdb3 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -439,7 +439,7 @@ def cli(
                     ),
                 )
                 sub.write_characters()
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json()})
+                json_data["characters and irreps"].append({"symmetry eigenvalues": np.array(k) if np.iscomplexobj(k) else k, "subspace": sub.json()})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0


From ea7c8f595b488fddf472c6b1e745ba6daf7cf2ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 34/42] fix: separation by the first symmetry, if it is not the
 identity

---
 irrep/bandstructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 1975b8f..8202578 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -652,11 +652,12 @@ class BandStructure:
             the subspace of that eigenvalue.
         """
 
-        if isymop == 1:
+        symop = self.spacegroup.symmetries[isymop - 1]
+        # the first operation is the identity, unless it was read from a file
+        if isymop == 1 and np.allclose(symop.rotation, np.eye(3)) and np.allclose(symop.translation, 0):
             return {1: self}
 
         # Print description of symmetry used for separation
-        symop = self.spacegroup.symmetries[isymop - 1]
         symop.show()
 
         # Separate each k-point
-- 
2.43.0


From 3a6037fe99b0ffbd60d92f5e3a17bdb62a08188f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 35/42] fix: Fermi energy given as a number (as documented)
 failed

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 8202578..8d0e183 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -252,7 +252,7 @@ class BandStructure:
             return
 
         # Set Fermi energy
-        if EF.lower() == "auto":
+        if str(EF).lower() == "auto":
             if EF_in is None:
                 self.efermi = 0.0
                 msg = "WARNING : fermi-energy not found. Setting it as 0 eV"
-- 
2.43.0


From 44a1a369dd5a691dee4f7038cef1de2d9caefd66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 36/42] fix: an empty .yml configuration file stopped the
 command

---
 irrep/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index e57bdb3..4ec6693 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -43,7 +43,8 @@ class LoadContextFromConfig(click.Command):
         if config_file is not None:
 
             # load from either a .yml or .json
-            config_data = loadfn(config_file)
+            # (an empty .yml file is loaded as None)
+            config_data = loadfn(config_file) or {}
 
             # sanitize inputs to be all lower-case
             config_data = {k.lower(): v for k, v in config_data.items()}
-- 
2.43.0


From f60f7941cf7c612a740b10cbd23486fc0cfd9467 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 37/42] fix: Separate, json and write_characters failed before
 irreps were identified

---
 irrep/kpoint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 8a0e1c9..2a89862 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -219,6 +219,8 @@ class Kpoint:
         # Calculate traces
         if calculate_traces:
             self.char, self.char_refUC, self.Energy_mean = self.calculate_traces(refUC, shiftUC, symmetries_tables, v)
+            # No irreps until they are identified
+            self.identify_irreps()
 
             # Determine number of band inversions based on parity
             found = False
-- 
2.43.0


From 98ef5fd5648ee64fee9805a8f4c23215345a8ffd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 38/42] fix: Abinit files of crystals with one atom per cell
 failed

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 209d7ab..b81207b 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -236,7 +236,7 @@ class ParserAbinit():
                     ntypat=ntypat)
                )
         record = record_abinit(self.fWFK, fmt)[0]
-        typat = record[6]
+        typat = np.atleast_1d(record[6])  # int if there is one atom
         kpt = record[7]
         nband = record[1]
         istwfk = record[0]
-- 
2.43.0


From 5f72092fbff011cab1ce39a65a87ca967b3d40b2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 39/42] fix: Wannier90 files with one band at one k-point
 failed

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index b81207b..467a19c 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -931,7 +931,7 @@ class ParserW90:
         '''
 
         feig = self.prefix + ".eig"
-        Energy = np.loadtxt(self.prefix + ".eig")
+        Energy = np.loadtxt(self.prefix + ".eig", ndmin=2)
         try:
             if Energy.shape[0] != self.NBin * self.NK:
                 raise RuntimeError("wrong number of entries ")
-- 
2.43.0


From 97ef0a2660faf977513d1eaa5748e73194c6d920 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 40/42] fix: spinor signs could depend on rounding errors of
 the input

Where several sign choices match the tables, the one found by the minimization
depended on the order of the symmetries and on rounding errors, and so did the
labels of the irreps.
---
 irrep/spacegroup.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 040b46b..b28c4f5 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1281,9 +1281,13 @@ class SpaceGroup():
                  symmetries in the tables. Try to modify the refUC and shiftUC \
                  parameters")
         if signs:
-            S1 = [sym.spinor_rotation for sym in self.symmetries]
-            S2 = [self.symmetries_tables[i].S for i in ind]
-            signs_array = self.__match_spinor_rotations(S1, S2)
+            # in the order of the tables and without rounding errors, as the
+            # minimization may end in another solution otherwise
+            order = np.argsort(ind)
+            S1 = [self.symmetries[j].spinor_rotation.round(6) for j in order]
+            S2 = [self.symmetries_tables[ind[j]].S for j in order]
+            signs_array = np.ones(len(ind), dtype=int)
+            signs_array[order] = self.__match_spinor_rotations(S1, S2)
         else:
             signs_array = np.ones(len(ind), dtype=int)
         return ind, dt, signs_array
-- 
2.43.0


From b327bd16a28d1a3a4741e398058a5e098bed1bd8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 41/42] fix: plane waves of VASP files misordered if a k point
 is far from the first Brillouin zone

The order of the FFT grid (0, 1, ..., then negative) was only reproduced where
G = 0 lies in the range of the plane waves.
---
 irrep/gvectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 4853383..cb3e762 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,8 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0) + 1
+    # order of the FFT grid: 0, 1, ..., then the negative ones
+    ng = 2 * abs(igall).max(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From e3d8ffb751efbcbea4d26dd54926ff3155a6aae3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:35 +0000
Subject: [PATCH 42/42] fix: search for plane waves did not end if a VASP
 spinor file announced too many

---
 irrep/gvectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index cb3e762..3988c4a 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -99,6 +99,9 @@ def calc_gvectors(
     igall = []
     Eg = []
     memory = np.full(10, True)
+    # every plane wave below Ecut is within |g1|+|g2|+|g3| <= sum(reach)
+    reach = np.sqrt(Ecut * twomhbar2) * la.norm(la.inv(B), axis=0) + np.abs(K)
+    nplanemax = min(nplanemax, int(sum(reach)) + 12)
     for N in range(nplanemax):
         flag = True
         if N % 10 == 0:
-- 
2.43.0

