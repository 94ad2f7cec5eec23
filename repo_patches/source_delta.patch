From cb93610f16c1d61220160c33c8a288ce1a04c42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 01/77] fix: quintic kernel gravity functions use the exact
 normalisation and zeta has the correct sign and scale

---
 src/Headers/SmoothingKernel.h | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index f05c1f8..e0d4bc3 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -349,17 +349,14 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wzeta(const FLOAT s)
 {
   if (s < (FLOAT) 1.0)
-    return (FLOAT) 33.0*s*s - (FLOAT) 15.0*pow(s,4) + (FLOAT) 5.0*pow(s,6) -
-      (FLOAT) 1.42857142857*pow(s,7) - (FLOAT) 34.14285714;
+    return -(12.0/360.0)*(33.0*s*s - 15.0*pow(s,4) + 5.0*pow(s,6) -
+      (10.0/7.0)*pow(s,7) - (478.0/14.0));
   else if (s < 2.0)
-    return (FLOAT) 25.5*s*s + (FLOAT) 25.0*pow(s,3) - (FLOAT) 52.5*pow(s,4)
-      + (FLOAT) 30.0*pow(s,5) - (FLOAT) 7.5*pow(s,6)
-      + (FLOAT) 0.7142857143*pow(s,7) - 33.785714286;
+    return -(12.0/360.0)*(25.5*s*s + 25.0*pow(s,3) - 52.5*pow(s,4) +
+      30.0*pow(s,5) - 7.5*pow(s,6) + (5.0/7.0)*pow(s,7) - (473.0/14.0));
   else if (s < (FLOAT) 3.0)
-    return (FLOAT) 121.5*s*s - (FLOAT) 135.0*pow(s,3) +
-      (FLOAT) 67.5*pow(s,4) - (FLOAT) 18.0*pow(s,5) +
-      (FLOAT) 2.5*pow(s,6) - (FLOAT) 0.142857143*pow(s,7) -
-      (FLOAT) 52.07142857;
+    return -(12.0/360.0)*(121.5*s*s - 135.0*pow(s,3) + 67.5*pow(s,4) -
+      18.0*pow(s,5) + 2.5*pow(s,6) - (1.0/7.0)*pow(s,7) - (729.0/14.0));
   else
     return 0.0;
 }
@@ -374,12 +371,12 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wgrav(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
+    return (12.0/360.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
   else if (s < 2.0)
-    return (12.0/359.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
+    return (12.0/360.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
       25.0*pow(s,4) - (45.0/7.0)*pow(s,5) + (5.0/8.0)*pow(s,6) + (5.0/56.0)/(s*s));
   else if (s < 3.0)
-    return (12.0/359.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
+    return (12.0/360.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
       15.0*pow(s,4) + (15.0/7.0)*pow(s,5) - (1.0/8.0)*pow(s,6) - (507.0/56.0)/(s*s));
   else
     return 1.0/(s*s);
@@ -395,13 +392,13 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wpot(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
+    return (12.0/360.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
       (5.0/28.0)*pow(s,7) + (478.0/14.0));
   else if (s < 2.0)
-    return (12.0/359.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
+    return (12.0/360.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
       5.0*pow(s,5) + (15.0/14.0)*pow(s,6) - (5.0/56.0)*pow(s,7) + (473.0/14.0) + (5.0/56.0)/s);
   else if (s < 3.0)
-    return (12.0/359.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
+    return (12.0/360.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
       3.0*pow(s,5) - (5.0/14.0)*pow(s,6) + (1.0/56.0)*pow(s,7) + (729.0/14.0) - (507.0/56.0)/s);
   else
     return 1.0/s;
-- 
2.43.0


From 2fbcfc3c3b07568555054efd48c9892994aeb6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 02/77] fix: time-dependent viscosity with self-gravity grows
 alpha in converging flow, not diverging flow

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 17e7049..f30868a 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -578,7 +578,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
   parti.dudt    -= eos->Pressure(parti)*parti.div_v*invrho_i*parti.invomega;
   if (tdavisc == mm97) {
     parti.dalphadt = (FLOAT) 0.1*parti.sound*(alpha_visc_min - parti.alpha)*invh_i +
-        max(parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
+        max(-parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
   }
 
   return;
-- 
2.43.0


From 98d4e90af2acf5c6d356fc2b972339adf124ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 03/77] fix: potential-minimum flag uses the distance of the
 current neighbour

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index f30868a..a49cdd9 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -272,8 +272,8 @@ int GradhSph<ndim, kernelclass>::ComputeH
     parti.flags.set(potmin);
     for (j=0; j<Nneib; j++) {
       const DensityParticle &ngb = ngbs[j];
-      FLOAT drsqd = DotProduct(dr,dr,ndim);
       for (k=0; k<ndim; k++) dr[k] = ngb.r[k] - parti.r[k];
+      FLOAT drsqd = DotProduct(dr,dr,ndim);
       if (ngb.gpot > (FLOAT) 1.000000001*parti.gpot &&
           drsqd*invhsqd < kern.kernrangesqd) parti.flags.unset(potmin);
     }
-- 
2.43.0


From cd7168230c3fd49240f58881d070bd8ff232d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 04/77] fix: gravity-only SPH takes the neighbour's time-step
 level from the neighbour list

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index a49cdd9..81a7ad4 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -638,7 +638,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphGravForces
     for (k=0; k<ndim; k++) parti.atree[k] += neibpart[j].m*dr[k]*paux;
     parti.gpot += neibpart[j].m*gaux;
 
-    parti.levelneib = max(parti.levelneib,sphdata[j].level);
+    parti.levelneib = max(parti.levelneib,neibpart[j].level);
   }
 
   //===============================================================================================
-- 
2.43.0


From 525af557243aff1dda8cbadd8e801ddd9ea5ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 05/77] fix: meshless smoothing-length iteration tests the
 current h with a relative tolerance

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 5747412..67de69b 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -169,8 +169,8 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
     rho       = part.m*ndens;
 
     // If h changes below some fixed tolerance, exit iteration loop
-    if (part.rho > (FLOAT) 0.0 && part.h > h_lower_bound &&
-        fabs(part.h - h_fac*pow(volume,MeshlessFV<ndim>::invndim)) < h_converge) break;
+    if (rho > (FLOAT) 0.0 && h > h_lower_bound &&
+        fabs(h - h_fac*pow(volume,MeshlessFV<ndim>::invndim))*invh < h_converge) break;
 
 
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim), for now.  If this does
-- 
2.43.0


From 427f9e7563bce092766d1e42f0b380aece833592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 06/77] fix: meshless grad-h omega and zeta terms use the sums
 just computed

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 67de69b..913fa19 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -217,9 +217,9 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
   part.hfactor   = pow(1/part.h, ndim+1);
   part.hrangesqd = kern.kernrangesqd*part.h*part.h;
   part.div_v     = (FLOAT) 0.0;
-  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*part.invomega/part.ndens;
+  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*invomega/part.ndens;
   part.invomega  = (FLOAT) 1.0/part.invomega;
-  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*part.zeta*part.invomega/part.ndens;
+  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*zeta*part.invomega/part.ndens;
   
 
   // Set important thermal variables here
-- 
2.43.0


From 4d45a15031c7feff4dfa53049d8452c67d33035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 07/77] fix: price2008 conductivity uses the signal speed
 sqrt(|dP|/rho_mean)

---
 src/GradhSph/GradhSph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 81a7ad4..d90769d 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -430,8 +430,8 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroForces
       }
       else if (acond == price2008) {
         parti.dudt += (FLOAT) 0.5*neibpart[j].m*(parti.u - neibpart[j].u)*
-          winvrho*(invrho_i + invrho_j)*
-          sqrt(fabs(parti.pressure - neibpart[j].pressure));
+          winvrho*sqrt((FLOAT) 0.5*(invrho_i + invrho_j)*
+                       fabs(parti.pressure - neibpart[j].pressure));
       }
 
     }
@@ -544,8 +544,8 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
       }
       else if (acond == price2008) {
         parti.dudt += (FLOAT) 0.5*neibpart[j].m*(parti.u - neibpart[j].u)*
-          winvrho*(invrho_i + invrho_j)*
-          sqrt(fabs(parti.pressure - neibpart[j].pressure));
+          winvrho*sqrt((FLOAT) 0.5*(invrho_i + invrho_j)*
+                       fabs(parti.pressure - neibpart[j].pressure));
       }
 
     }
-- 
2.43.0


From 5268bbf0643a07ade2762a2b7d36e98366174adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 08/77] fix: stellar property look-up without a table or below
 its first mass

---
 src/Nbody/Nbody.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Nbody/Nbody.cpp b/src/Nbody/Nbody.cpp
index bc4b889..33e5614 100644
--- a/src/Nbody/Nbody.cpp
+++ b/src/Nbody/Nbody.cpp
@@ -192,6 +192,9 @@ void Nbody<ndim>::UpdateStellarProperties(void)
 
   debug2("[Nbody::UpdateStellarProperties]");
 
+  // Without a (complete) table there are no properties to interpolate
+  if (Nstellartable < 2) return;
+
   //-----------------------------------------------------------------------------------------------
   for (i=0; i<Nstar; i++) {
     ms = nbodydata[i]->m;
@@ -201,9 +204,13 @@ void Nbody<ndim>::UpdateStellarProperties(void)
       if (ms >= stellartable[jbin].mass && ms < stellartable[jbin+1].mass) break;
     }
 
-    // If mass exceeds last bin, simply use largest mass values for stellar properties
-    // Otherwise, use linear interpolation between tabulated values
-    if (jbin == Nstellartable-1) {
+    // If mass is below the first bin (or exceeds the last), simply use the smallest (largest) mass
+    // values for stellar properties.  Otherwise, use linear interpolation between tabulated values
+    if (ms < stellartable[0].mass) {
+      jbin = 0;
+      frac = 0.0;
+    }
+    else if (jbin == Nstellartable-1) {
       jbin = Nstellartable - 2;
       frac = 1.0;
     }
-- 
2.43.0


From 02c276d7acc5a969da07b352df1bd99c40ec9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 09/77] fix: DKD leapfrog ends a prematurely shortened step on
 a multiple of the new step

---
 src/Hydrodynamics/SphLeapfrogDKD.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogDKD.cpp b/src/Hydrodynamics/SphLeapfrogDKD.cpp
index 5375fec..9df9232 100644
--- a/src/Hydrodynamics/SphLeapfrogDKD.cpp
+++ b/src/Hydrodynamics/SphLeapfrogDKD.cpp
@@ -256,9 +256,10 @@ int SphLeapfrogDKD<ndim, ParticleType>::CheckTimesteps
       nnewstep = pow(2,level_step - level_new);
 
       // If new level is correctly synchronised at the half-step of the
-      // new-step (where acceleration is computed), then change all quantities
-      if ((2*dn)%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
+      // new-step (where acceleration is computed) or at the end of one,
+      // then change all quantities
+      if (2*dn == nnewstep || dn%nnewstep == 0) {
+        if (dn > 0) part.nstep = max(dn, nnewstep);
         part.level = level_new;
         part.flags.set(active);
         activecount++;
-- 
2.43.0


From a5f2dd7ad88643f093401ea6f7f2179dc6a48222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:52 +0000
Subject: [PATCH 10/77] fix: octree root cell box, cell storage and geometry of
 cells without gravitating mass

---
 src/Tree/OctTree.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 9aadf5e..78a0602 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -111,8 +111,8 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
     Ncells    = max((int) ((FLOAT) 2.0*(FLOAT) Ncells), 4*Nparticles);
     gtot        = Ntotmax;
 
-    firstCell = new int[lmax];
-    lastCell  = new int[lmax];
+    firstCell = new int[lmax+1];
+    lastCell  = new int[lmax+1];
     ids       = new int[Nparticles];
     inext     = new int[Nparticles];
     celldata  = new struct TreeCell<ndim>[Ncells];
@@ -281,6 +281,8 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   for (k=0; k<ndim; k++) celldata[0].cexit[0][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].cexit[1][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].v[k]= (FLOAT) 0.0;
+  for (k=0; k<ndim; k++) celldata[0].bb.min[k] = bbmin[k];
+  for (k=0; k<ndim; k++) celldata[0].bb.max[k] = bbmax[k];
   for (k=0; k<ndim; k++) {
     celldata[0].rcentre[k] = (FLOAT) 0.5*(celldata[0].bb.min[k] + celldata[0].bb.max[k]);
     cellSize = max(cellSize, celldata[0].bb.max[k] - celldata[0].rcentre[k]);
@@ -304,6 +306,23 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     while (!allDone) {
       cellSize *= (FLOAT) 0.5;
 
+      // Grow the cell array if the new level does not fit into it
+      if (Ncell + Noctchild*Nlist > Ncellmax) {
+        const int Ncellmaxold = Ncellmax;
+        ReallocateMemory(Ntotmax, 2*(Ncell + Noctchild*Nlist));
+        for (c=0; c<Ncellmaxold; c++) {
+          if (celldata[c].cnext == Ncellmaxold) celldata[c].cnext = Ncellmax;
+        }
+        for (c=Ncellmaxold; c<Ncellmax; c++) {
+          celldata[c].N      = 0;
+          celldata[c].ifirst = -1;
+          celldata[c].ilast  = -1;
+          celldata[c].copen  = -1;
+          celldata[c].cnext  = Ncellmax;
+          celldata[c].id     = c;
+        }
+      }
+
 
       // Loop over all unfinished cells to find new child cell occupancy
       //-------------------------------------------------------------------------------------------
@@ -506,6 +525,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
       for (k=0; k<ndim; k++) cell.bb.max[k]   = -big_number;
       for (k=0; k<ndim; k++) cell.hbox.min[k] = big_number;
       for (k=0; k<ndim; k++) cell.hbox.max[k] = -big_number;
+      for (k=0; k<ndim; k++) cell.vbox.min[k] = big_number;
+      for (k=0; k<ndim; k++) cell.vbox.max[k] = -big_number;
       for (k=0; k<5; k++) cell.q[k] = (FLOAT) 0.0;
 
 
@@ -569,6 +590,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
         if (cell.m > 0) {
           for (k=0; k<ndim; k++) cell.r[k] /= cell.m;
           for (k=0; k<ndim; k++) cell.v[k] /= cell.m;
+        }
+        if (cell.N > 0) {
           for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
           for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
           cell.cdistsqd = max(DotProduct(dr,dr,ndim),cell.hmax*cell.hmax)/thetamaxsqd;
-- 
2.43.0


From e4df5144d06d7404035f0c82e73f842cf9bd0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 11/77] fix: octree leaf-cell bound gtot uses the new particle
 capacity

---
 src/Tree/OctTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 78a0602..dc53447 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -109,7 +109,7 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
     Ncells = max(Ncells,Ncellmax);
     Nparticles = max(Nparticles,Ntotmax);
     Ncells    = max((int) ((FLOAT) 2.0*(FLOAT) Ncells), 4*Nparticles);
-    gtot        = Ntotmax;
+    gtot        = Nparticles;
 
     firstCell = new int[lmax+1];
     lastCell  = new int[lmax+1];
-- 
2.43.0


From 820f1b9b7759e14d758d48c7c5a25d93971aa0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 12/77] fix: empty octree (no ghost particles) has a valid root
 level and no particles

---
 src/Tree/OctTree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index dc53447..5f94a83 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -272,9 +272,11 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   // Set properties for root cell before constructing tree
   Ncell  = 1;
   ltot   = 0;
+  firstCell[0] = 0;
+  lastCell[0]  = 0;
   celldata[0].N      = Ntot;
-  celldata[0].ifirst = _ifirst;
-  celldata[0].ilast  = _ilast;
+  celldata[0].ifirst = ifirst;
+  celldata[0].ilast  = ilast;
   celldata[0].level  = 0;
   celldata[0].copen  = -1;
   celldata[0].hmax = 0;
@@ -297,8 +299,6 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     celllist     = new int[Npartmax];
     Nlist        = 1;
     celllist[0]  = 0;
-    firstCell[0] = 0;
-    lastCell[0]  = 0;
 
 
     // Recursively divide tree to lower levels until all leaf cells contain maximum no. of ptcls.
-- 
2.43.0


From 8bb8615e1fe8923c6cf1b61c4515587ad4f6865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 13/77] fix: derivative of the Gaussian kernel with respect to
 h is 2 s^2 - ndim, not 2 s - ndim

---
 src/Headers/SmoothingKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index e0d4bc3..d3a54d2 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -480,7 +480,7 @@ inline FLOAT GaussianKernel<ndim>::womega(const FLOAT s)
 {
   if (s < kernrange)
     return (kernnorm)*
-      ((FLOAT) 2.0*s*exp(-s*s) - (ndim)*exp(-s*s));
+      ((FLOAT) 2.0*s*s*exp(-s*s) - (ndim)*exp(-s*s));
   else
     return (FLOAT) 0.0;
 }
-- 
2.43.0


From c5f38f4dcd45f11547a67cdf33849942ab644cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 14/77] fix: meshless Runge-Kutta run re-creates its boundary
 ghosts every step, not only on tree-build steps

---
 src/MeshlessFV/MfvRungeKuttaSimulation.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
index 074980c..543e207 100644
--- a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
+++ b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
@@ -190,12 +190,10 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
   mfvneib->BuildTree(rebuild_tree, Nsteps, ntreebuildstep, ntreestockstep, timestep, mfv);
 
   // Search for new ghost particles and create on local processor
-  if (Nsteps%ntreebuildstep == 0 || rebuild_tree) {
-    tghost = timestep*(FLOAT) (ntreebuildstep - 1);
-    mfvneib->SearchBoundaryGhostParticles(tghost, simbox, mfv);
-    LocalGhosts->CopyHydroDataToGhosts(simbox,mfv);
-    mfvneib->BuildGhostTree(rebuild_tree, Nsteps, ntreebuildstep, ntreestockstep, timestep, mfv);
-  }
+  tghost = 0;
+  mfvneib->SearchBoundaryGhostParticles(tghost, simbox, mfv);
+  LocalGhosts->CopyHydroDataToGhosts(simbox,mfv);
+  mfvneib->BuildGhostTree(true, Nsteps, ntreebuildstep, ntreestockstep, timestep, mfv);
 
   // Update all active cell counters in the tree
   mfvneib->UpdateActiveParticleCounters(mfv);
-- 
2.43.0


From 04b9b7b51dc225197e13009f1047cba04e72ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 15/77] Observation points for run-time monitors (guard
 GANDALF_VERIF_HOOKS)

---
 src/Headers/Simulation.h                   |  1 +
 src/Headers/VerifHook.h                    | 18 ++++++++++++++++++
 src/Hydrodynamics/SphSimulation.cpp        | 10 ++++++++++
 src/MeshlessFV/MfvMusclSimulation.cpp      | 14 ++++++++++++++
 src/MeshlessFV/MfvRungeKuttaSimulation.cpp | 10 ++++++++++
 src/Nbody/NbodySimulation.cpp              |  4 ++++
 6 files changed, 57 insertions(+)
 create mode 100644 src/Headers/VerifHook.h

diff --git a/src/Headers/Simulation.h b/src/Headers/Simulation.h
index 84eaee4..e490d4f 100644
--- a/src/Headers/Simulation.h
+++ b/src/Headers/Simulation.h
@@ -64,6 +64,7 @@
 #include "Supernova.h"
 #include "TimeStepControl.h"
 #include "TreeRay.h"
+#include "VerifHook.h"
 using namespace std;
 #ifdef MPI_PARALLEL
 #include "mpi.h"
diff --git a/src/Headers/VerifHook.h b/src/Headers/VerifHook.h
new file mode 100644
index 0000000..542c51c
--- /dev/null
+++ b/src/Headers/VerifHook.h
@@ -0,0 +1,18 @@
+//=================================================================================================
+//  VerifHook.h
+//  Observation points for run-time monitors.  Compiled to nothing unless GANDALF_VERIF_HOOKS is
+//  defined; with it, each point calls a user-supplied function (if one has been installed) which
+//  may only read the state of the simulation.
+//=================================================================================================
+#ifndef _VERIF_HOOK_H_
+#define _VERIF_HOOK_H_
+
+#if defined(GANDALF_VERIF_HOOKS)
+class SimulationBase;
+extern void (*gandalf_verif_hook)(SimulationBase *, const char *);
+#define VERIF_HOOK(point) do { if (gandalf_verif_hook) gandalf_verif_hook(this, point); } while (0)
+#else
+#define VERIF_HOOK(point) do { } while (0)
+#endif
+
+#endif
diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index 0f6b149..e3c2cb0 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -734,6 +734,8 @@ void SphSimulation<ndim>::MainLoop(void)
     mpicontrol->GetExportedParticlesAccelerations(sph);
 #endif
 
+    VERIF_HOOK("forces");
+
     // Zero all active flags once accelerations have been computed
     for (i=0; i<sph->Nhydro; i++) {
       SphParticle<ndim>& part = sph->GetSphParticlePointer(i);
@@ -809,6 +811,8 @@ void SphSimulation<ndim>::MainLoop(void)
       }
     }
 
+    VERIF_HOOK("nbody");
+
     // Calculate correction step for all stars at end of step, except the
     // final iteration (since correction is computed in EndStep also).
     //if (it < nbody->Npec - 1)
@@ -817,6 +821,8 @@ void SphSimulation<ndim>::MainLoop(void)
   }
   //-----------------------------------------------------------------------------------------------
 
+  VERIF_HOOK("presink");
+
   // Search for new sink particles (if activated) and accrete to existing sinks
   if (sink_particles == 1) {
     if (sinks->create_sinks == 1 && (rebuild_tree || Nfullsteps%ntreebuildstep == 0)) {
@@ -837,6 +843,8 @@ void SphSimulation<ndim>::MainLoop(void)
     }
   }
 
+  VERIF_HOOK("postsink");
+
   // Compute timesteps for all particles (for next step, needed for dust accelerations.)
   if (Nlevels == 1) this->ComputeGlobalTimestep();
   else this->ComputeBlockTimesteps();
@@ -852,7 +860,9 @@ void SphSimulation<ndim>::MainLoop(void)
 #ifdef MPI_PARALLEL
     MpiGhosts->CopyHydroDataToGhosts(simbox, sph);
 #endif
+    VERIF_HOOK("predrag");
     sphdust->UpdateAllDragForces(sph) ;
+    VERIF_HOOK("postdrag");
 
     // Unset active particles
     for (i=0; i<sph->Nhydro; i++)
diff --git a/src/MeshlessFV/MfvMusclSimulation.cpp b/src/MeshlessFV/MfvMusclSimulation.cpp
index c23281c..7c7daf6 100644
--- a/src/MeshlessFV/MfvMusclSimulation.cpp
+++ b/src/MeshlessFV/MfvMusclSimulation.cpp
@@ -92,6 +92,8 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
   if (mfv->hydro_forces) mpicontrol->GetExportedParticlesAccelerations(mfv);
 #endif
 
+  VERIF_HOOK("flux");
+
   // Advance all global time variables
   n++;
   Nsteps++;
@@ -184,6 +186,8 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
 #endif
   }
 
+  VERIF_HOOK("gravity");
+
   // Compute the dust forces if present.
   if (mfvdust != NULL) {
 
@@ -196,7 +200,9 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
 #ifdef MPI_PARALLEL
     MpiGhosts->CopyHydroDataToGhosts(simbox, mfv);
 #endif
+    VERIF_HOOK("predrag");
     mfvdust->UpdateAllDragForces(mfv) ;
+    VERIF_HOOK("postdrag");
 
     for (i=0; i<mfv->Nhydro; i++) {
       MeshlessFVParticle<ndim>& part = mfv->GetMeshlessFVParticlePointer(i) ;
@@ -247,12 +253,16 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
       }
     }
 
+    VERIF_HOOK("nbody");
+
     // Calculate correction step for all stars at end of step.
     nbody->CorrectionTerms(n, nbody->Nnbody, t, timestep, nbody->nbodydata);
 
   }
   //-----------------------------------------------------------------------------------------------
 
+  VERIF_HOOK("presink");
+
   // Search for new sink particles (if activated) and accrete to existing sinks
   if (sink_particles == 1) {
     if (sinks->create_sinks == 1 && (rebuild_tree || Nfullsteps%ntreebuildstep == 0)) {
@@ -282,6 +292,8 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
   }
 
 
+  VERIF_HOOK("postsink");
+
   // Compute timesteps for all particles
   if (Nlevels == 1) {
     this->ComputeGlobalTimestep();
@@ -309,6 +321,8 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
   // Update all active cell counters in the tree
   mfvneib->UpdateActiveParticleCounters(mfv);
 
+  VERIF_HOOK("endstep");
+
   //Calculate all properties (and copy updated data to ghost particles)
   mfvneib->UpdateAllProperties(mfv, nbody);
 
diff --git a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
index 543e207..72e71a0 100644
--- a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
+++ b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
@@ -78,6 +78,8 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
     mfvneib->UpdateGodunovFluxes(timestep, mfv, nbody, simbox);
   }
 
+  VERIF_HOOK("flux");
+
   // Advance all global time variables
   n++;
   Nsteps++;
@@ -99,6 +101,8 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
   mfvneib->BuildGhostTree(rebuild_tree, Nsteps, ntreebuildstep, ntreestockstep, timestep, mfv);
 
 
+  VERIF_HOOK("presink");
+
   // Search for new sink particles (if activated) and accrete to existing sinks
   if (sink_particles == 1) {
     if (sinks->create_sinks == 1 && (rebuild_tree || Nfullsteps%ntreebuildstep == 0)) {
@@ -129,11 +133,15 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
 
   }
 
+  VERIF_HOOK("postsink");
+
   // Calculate terms due to self-gravity
   if (mfv->self_gravity == 1) {
     mfvneib->UpdateAllGravForces(mfv, nbody, simbox, ewald);
   }
 
+  VERIF_HOOK("gravity");
+
   // Compute N-body forces
   //-----------------------------------------------------------------------------------------------
   if (nbody->Nnbody > 0) {
@@ -174,6 +182,8 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
       }
     }
 
+    VERIF_HOOK("nbody");
+
     // Calculate correction step for all stars at end of step.
     nbody->CorrectionTerms(n, nbody->Nnbody, t, timestep, nbody->nbodydata);
 
diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 26b7332..a0f7be8 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -356,6 +356,8 @@ void NbodySimulation<ndim>::MainLoop(void)
         }
       }
 
+      VERIF_HOOK("nbody");
+
       // Calculate correction step for all stars at end of step
       nbody->CorrectionTerms(n, nbody->Nnbody, t, timestep, nbody->nbodydata);
 
@@ -366,6 +368,8 @@ void NbodySimulation<ndim>::MainLoop(void)
   //-----------------------------------------------------------------------------------------------
 
 
+  VERIF_HOOK("presubsystem");
+
   // Integrate the internal motion of all sub-systems
   if (nbody->sub_systems == 1) {
     for (i=0; i<nbody->Nnbody; i++) {
-- 
2.43.0


From d84029a1fa74f6b08b5901fad4d73a7105f8d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 16/77] fix: mm97 viscosity rate is reset before and kept after
 every force evaluation

---
 src/GradhSph/GradhSphTree.cpp | 2 ++
 src/Hydrodynamics/Sph.cpp     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 671f1bc..129f892 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -508,6 +508,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
       for (int j=0; j<Nactive; j++) {
         activepart[j].div_v     = (FLOAT) 0.0;
         activepart[j].dudt      = (FLOAT) 0.0;
+        activepart[j].dalphadt  = (FLOAT) 0.0;
         activepart[j].levelneib = 0;
         activepart[j].gpot      = (activepart[j].m/activepart[j].h)*sph->kernp->wpot(0.0);
         for (int k=0; k<ndim; k++) activepart[j].a[k]     = (FLOAT) 0.0;
@@ -615,6 +616,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
         sphdata[i].gpot  += activepart[j].gpot;
         sphdata[i].gpot_hydro += activepart[j].gpot_hydro;
         sphdata[i].dudt  += activepart[j].dudt;
+        sphdata[i].dalphadt += activepart[j].dalphadt;
         sphdata[i].div_v += activepart[j].div_v;
         levelneib[i]      = max(levelneib[i],activepart[j].levelneib);
       }
diff --git a/src/Hydrodynamics/Sph.cpp b/src/Hydrodynamics/Sph.cpp
index 8230698..f06a25f 100644
--- a/src/Hydrodynamics/Sph.cpp
+++ b/src/Hydrodynamics/Sph.cpp
@@ -133,6 +133,7 @@ void Sph<ndim>::ZeroAccelerations()
       part.dudt      = (FLOAT) 0.0;
       part.gpot      = (FLOAT) 0.0;
       part.gpot_hydro= (FLOAT) 0.0;
+      if (tdavisc == mm97) part.dalphadt = (FLOAT) 0.0;
       for (int k=0; k<ndim; k++) part.a[k] = (FLOAT) 0.0;
       for (int k=0; k<ndim; k++) part.atree[k] = (FLOAT) 0.0;
     }
-- 
2.43.0


From d66c5b5e729264431112e16e570c3191538fb195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 17/77] fix: mirror-ghost construction keeps a copy of the
 source particle, not a reference into the growing vector

---
 src/Headers/GhostNeighbours.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 297ea0c..badb2bb 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -411,7 +411,8 @@ private:
 	int _MakeReflectedScatterGatherGhosts(vector<ParticleType>& ngbs) const {
 	  int nc = 1 ;
 	  const int old_size = ngbs.size()-1;
-	  const ParticleType& real_particle = ngbs.back();
+	  // Take a copy, since adding ghosts can move the contents of the vector
+	  const ParticleType real_particle = ngbs.back();
 	  FLOAT h2 = real_particle.hrangesqd ;
 
 	  // Loop over the possible directions for reflections
-- 
2.43.0


From 4880d9954070fe111f2ab406165397e1d6dec67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 18/77] fix: box overlap across a periodic wall has no
 correction in the non-periodic directions

---
 src/Headers/GhostNeighbours.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index badb2bb..5c8b76a 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -177,6 +177,7 @@ public:
       if (_any_periodic)
         {
           for (int k=0; k<ndim; k++) {
+            dr_corr[k] = 0 ;
             if (_periodic_bound[k]) {
               if (dr[k] > _domain.half[k]) {
                 dr_corr[k] =- _domain.size[k];
-- 
2.43.0


From 57c15536990a172bbac315c8e5e91afc9150a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 19/77] fix: star-gas gravity walk accepts the last leaf
 whatever its size (endless reallocation before)

---
 src/Tree/Tree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 6796d3b..2db057c 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -801,7 +801,7 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
       }
 
       // If leaf-cell, add particles to list
-      else if (celldata[cc].copen == -1 && Nneib + Nleafmax <= Nneibmax) {
+      else if (celldata[cc].copen == -1 && Nneib + celldata[cc].N <= Nneibmax) {
         i = celldata[cc].ifirst;
         while (i != -1) {
           if (!partdata[i].flags.is_dead()) neiblist[Nneib++] = i;
@@ -812,7 +812,7 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
       }
 
       // If leaf-cell, but we've run out of memory, return with error-code (-1)
-      else if (celldata[cc].copen == -1 && Nneib + Nleafmax > Nneibmax) {
+      else if (celldata[cc].copen == -1 && Nneib + celldata[cc].N > Nneibmax) {
         return -1;
       }
 
@@ -850,7 +850,7 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
       }
 
       // If leaf-cell, add particles to list
-      else if (celldata[cc].copen == -1 && Ndirect + Nleafmax <= Ndirectmax) {
+      else if (celldata[cc].copen == -1 && Ndirect + celldata[cc].N <= Ndirectmax) {
         i = celldata[cc].ifirst;
         while (i != -1) {
           if (!partdata[i].flags.is_dead()) directlist[Ndirect++] = i;
@@ -861,7 +861,7 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
       }
 
       // If leaf-cell, but we've run out of memory, return with error-code (-1)
-      else if (celldata[cc].copen == -1 && Ndirect + Nleafmax > Ndirectmax) {
+      else if (celldata[cc].copen == -1 && Ndirect + celldata[cc].N > Ndirectmax) {
         return -1;
       }
 
-- 
2.43.0


From 06fe620ff2ec220204b2acdcf3cd6e964a4844e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 20/77] fix: gravitational potential counts the self-term once

---
 src/GradhSph/GradhSphTree.cpp     | 2 +-
 src/MeshlessFV/MeshlessFVTree.cpp | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 129f892..c0390af 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -510,7 +510,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
         activepart[j].dudt      = (FLOAT) 0.0;
         activepart[j].dalphadt  = (FLOAT) 0.0;
         activepart[j].levelneib = 0;
-        activepart[j].gpot      = (activepart[j].m/activepart[j].h)*sph->kernp->wpot(0.0);
+        activepart[j].gpot      = (FLOAT) 0.0;     // (the self-term is added with the neighbour list)
         for (int k=0; k<ndim; k++) activepart[j].a[k]     = (FLOAT) 0.0;
         for (int k=0; k<ndim; k++) activepart[j].atree[k] = (FLOAT) 0.0;
       }
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index e7d1a50..91f7294 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -735,11 +735,8 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateAllGravForces
       // Do the self-gravity contribution, or just the stars
       if (self_gravity) {
 
-        // Include self-term for potential
-        // TODO:
-        //   Check: Is this now accounted for in the neighbour list?
-        for (int j=0; j<Nactive; j++)
-          activepart[j].gpot = (activepart[j].m/activepart[j].h)*mfv->kernp->wpot((FLOAT) 0.0);
+        // Zero the potential (the self-term is added with the neighbour list)
+        for (int j=0; j<Nactive; j++) activepart[j].gpot = (FLOAT) 0.0;
 
 
         // Compute neighbour list for cell depending on physics options
-- 
2.43.0


From 60abe7621ab5349a7f98bcd0370bd18100914e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 21/77] fix: meshless Runge-Kutta run zeroes accelerations
 every step

---
 src/MeshlessFV/MfvRungeKuttaSimulation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
index 72e71a0..803975d 100644
--- a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
+++ b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
@@ -135,6 +135,9 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
 
   VERIF_HOOK("postsink");
 
+  // Zero accelerations of the previous step
+  mfv->ZeroAccelerations();
+
   // Calculate terms due to self-gravity
   if (mfv->self_gravity == 1) {
     mfvneib->UpdateAllGravForces(mfv, nbody, simbox, ewald);
-- 
2.43.0


From e415a9f3e73d59dab2d0a850f16d8de3180ae335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 22/77] fix: particles moved to newly added time-step levels
 got a zero time step

---
 src/Common/Simulation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index b6b3711..2b25626 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -2140,13 +2140,17 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
       for (i=0; i<hydro->Nhydro; i++) {
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         if (part.flags.is_dead()) continue;
-        if (part.nlast == n) part.nstep = pow(2, level_step - part.level);
+        if (part.nlast == n) {
+          part.nstep   = pow(2, level_step - part.level);
+          part.dt_next = part.nstep * timestep;
+        }
       }
     }
     if (nbody != NULL) {
       for (i=0; i<nbody->Nnbody; i++) {
         if (nbody->nbodydata[i]->nlast == n) {
           nbody->nbodydata[i]->nstep = pow(2, level_step - nbody->nbodydata[i]->level);
+          nbody->nbodydata[i]->dt_next = nbody->nbodydata[i]->nstep * timestep;
         }
       }
     }
-- 
2.43.0


From 34159b297fe0b9a970c37472842cf05978b17b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 23/77] fix: SPH velocity and energy correction uses the
 elapsed step when the neighbour limiter shortens it

---
 src/Hydrodynamics/SphLeapfrogKDK.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogKDK.cpp b/src/Hydrodynamics/SphLeapfrogKDK.cpp
index 88fb25b..55a9861 100644
--- a/src/Hydrodynamics/SphLeapfrogKDK.cpp
+++ b/src/Hydrodynamics/SphLeapfrogKDK.cpp
@@ -285,7 +285,7 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
  (const int level_diff_max,            ///< [in] Max. allowed SPH neib dt diff
   const int level_step,                ///< [in] Level of base timestep
   const int n,                         ///< [in] Integer time in block time struct
-  const FLOAT timetep,                 ///< [in] Current time-step
+  const FLOAT timestep,                ///< [in] Current time-step
   Hydrodynamics<ndim>* hydro)
 {
   int dn;                              // Integer time since beginning of step
@@ -316,7 +316,10 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
 
       // If new level is correctly synchronised, then change all quantities
       if (dn%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
+        if (dn > 0) {
+          part.nstep = dn;
+          part.dt    = dn*timestep;
+        }
         part.level  = level_new;
         part.flags.set(active);
         activecount++;
-- 
2.43.0


From 36d20f3bda55a73df2d9e6f2985bde9c8e022d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 24/77] fix: time steps assigned at a resynchronisation are in
 units of the elementary step (leapfrog DKD)

---
 src/Common/Simulation.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 2b25626..4f33869 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1852,6 +1852,9 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
     level_max  = Nlevels - 1;
     level_step = level_max + integration_step - 1;
     dt_max     = timestep*pow(2.0, level_max);
+    nresync    = pow(2, level_step);
+    assert(nresync > 0);
+    timestep   = dt_max / (DOUBLE) nresync;
 
     // Calculate the maximum level occupied by all SPH particles
     level_max_hydro = min(ComputeTimestepLevel(dt_min_hydro, dt_max), level_max);
@@ -1918,10 +1921,6 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
       }
     }
 
-    nresync = pow(2, level_step);
-    assert(nresync > 0);
-    timestep = dt_max / (DOUBLE) nresync;
-
   }
   // If not resynchronising, check if any hydro/N-body particles need to move
   // up or down timestep levels.
-- 
2.43.0


From b62fd5f8910fdc2474eae946f8996b86c90487ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 25/77] fix: wrap particles that move further than one periodic
 box length in a step

---
 src/Common/Integration.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Common/Integration.cpp b/src/Common/Integration.cpp
index de29dcd..ad2a31b 100644
--- a/src/Common/Integration.cpp
+++ b/src/Common/Integration.cpp
@@ -1,3 +1,4 @@
+#include <math.h>
 #include "Integration.h"
 #include "Debug.h"
 
@@ -36,8 +37,9 @@ void TimeIntegration<ndim>::CheckBoundaries
 
         // Check if periodic boundary
         if (simbox.boundary_lhs[k] == periodicBoundary) {
-          part.r[k]  += simbox.size[k];
-          part.r0[k] += simbox.size[k];
+          const FLOAT shift = ceil((simbox.min[k] - part.r[k])/simbox.size[k])*simbox.size[k];
+          part.r[k]  += shift;
+          part.r0[k] += shift;
         }
 
         // Check if wall or mirror boundary
@@ -58,8 +60,9 @@ void TimeIntegration<ndim>::CheckBoundaries
 
         // Check if periodic boundary
         if (simbox.boundary_rhs[k] == periodicBoundary) {
-          part.r[k]  -= simbox.size[k];
-          part.r0[k] -= simbox.size[k];
+          const FLOAT shift = ceil((part.r[k] - simbox.max[k])/simbox.size[k])*simbox.size[k];
+          part.r[k]  -= shift;
+          part.r0[k] -= shift;
         }
 
         // Check if wall or mirror boundary
-- 
2.43.0


From b913280e240af0a4c5fc1ae37875f497abf7aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 26/77] fix: reflect the acceleration of newly created mirror
 ghosts (read by the cd2010 viscosity switch)

---
 src/Hydrodynamics/Hydrodynamics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Hydrodynamics/Hydrodynamics.cpp b/src/Hydrodynamics/Hydrodynamics.cpp
index 8fde04a..667e286 100644
--- a/src/Hydrodynamics/Hydrodynamics.cpp
+++ b/src/Hydrodynamics/Hydrodynamics.cpp
@@ -277,6 +277,9 @@ void Hydrodynamics<ndim>::CreateBoundaryGhostParticle
   ghostpart        = origpart;
   ghostpart.r[k]   = rk;
   ghostpart.v[k]   = vk;
+  if (ghosttype == mirror_bound_flags[k][0] || ghosttype == mirror_bound_flags[k][1]) {
+    ghostpart.a[k] = -origpart.a[k];
+  }
   ghostpart.flags.unset(active);
   ghostpart.flags.set(ghosttype); // Allow ghost to have multiple ghost flags
   ghostpart.iorig  = i;
-- 
2.43.0


From af6b56139c808284de6eaf11b7329433dac37991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:46 +0000
Subject: [PATCH 27/77] fix: reset cd2010 switch values raised by the
 preliminary setup passes

---
 src/Hydrodynamics/SphSimulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index e3c2cb0..8812c58 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -419,6 +419,8 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
       part.gpot      = (FLOAT) 0.0;
       for (k=0; k<ndim; k++) part.a[k] = (FLOAT) 0.0;
       for (k=0; k<ndim; k++) part.atree[k] = (FLOAT) 0.0;
+      // Discard switch values raised by the preliminary passes (incomplete smoothing lengths/ghosts)
+      if (iter == 0 && sph->tdavisc == cd2010) part.alpha = sph->alpha_visc_min;
     }
 
     // Calculate all SPH properties
-- 
2.43.0


From c7eec7aff6976d6a1bf05dfeb77ae385d4184b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:18 +0000
Subject: [PATCH 28/77] fix: reflect the conserved variables of meshless
 particles at mirror and wall boundaries

---
 src/Common/Integration.cpp        |  2 ++
 src/Headers/Integration.h         |  2 ++
 src/MeshlessFV/MfvIntegration.cpp | 29 +++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/Common/Integration.cpp b/src/Common/Integration.cpp
index ad2a31b..85be722 100644
--- a/src/Common/Integration.cpp
+++ b/src/Common/Integration.cpp
@@ -50,6 +50,7 @@ void TimeIntegration<ndim>::CheckBoundaries
           part.v0[k] = -part.v0[k];
           part.a[k]  = -part.a[k];
           part.a0[k] = -part.a0[k];
+          ReflectConservedVariables(part, k);
         }
 
       }
@@ -73,6 +74,7 @@ void TimeIntegration<ndim>::CheckBoundaries
           part.v0[k] = -part.v0[k];
           part.a[k]  = -part.a[k];
           part.a0[k] = -part.a0[k];
+          ReflectConservedVariables(part, k);
         }
 
       }
diff --git a/src/Headers/Integration.h b/src/Headers/Integration.h
index 0313092..c2848be 100644
--- a/src/Headers/Integration.h
+++ b/src/Headers/Integration.h
@@ -60,6 +60,7 @@ class TimeIntegration
                              Hydrodynamics<ndim> *) = 0;
   virtual DOUBLE Timestep(Particle<ndim> &, Hydrodynamics<ndim> *) = 0;
   virtual void CheckBoundaries(DomainBox<ndim> &, Hydrodynamics<ndim> *);
+  virtual void ReflectConservedVariables(Particle<ndim> &, const int) {};
 
   static const int vdim=ndim;
   CodeTiming *timing;               ///< Pointer to code timing object
@@ -186,6 +187,7 @@ public:
   void EndTimestep(const int, const FLOAT, const FLOAT, Hydrodynamics<ndim> *);
   int CheckTimesteps(const int, const int, const int, const FLOAT, Hydrodynamics<ndim> *);
   DOUBLE Timestep(Particle<ndim> &, Hydrodynamics<ndim> *);
+  void ReflectConservedVariables(Particle<ndim> &, const int);
 
  private:
   const DOUBLE accel_mult ;
diff --git a/src/MeshlessFV/MfvIntegration.cpp b/src/MeshlessFV/MfvIntegration.cpp
index 293df49..cc51cd1 100644
--- a/src/MeshlessFV/MfvIntegration.cpp
+++ b/src/MeshlessFV/MfvIntegration.cpp
@@ -296,6 +296,35 @@ void MfvIntegration<ndim, ParticleType>::SetActiveParticles
   }
 }
 
+//=================================================================================================
+//  MfvIntegration::ReflectConservedVariables
+/// Reflect the k-components of the conserved variables (and of everything derived from them) of a
+/// particle that has been reflected at a wall; otherwise the original velocity would be restored
+/// from the conserved momentum at the end of the step.
+//=================================================================================================
+template <int ndim, template <int> class ParticleType>
+void MfvIntegration<ndim,ParticleType>::ReflectConservedVariables
+(Particle<ndim> &part_gen,             ///< [inout] Reflected particle
+ const int k)                          ///< [in] Direction of reflection
+ {
+  MeshlessFVParticle<ndim> &part = static_cast<MeshlessFVParticle<ndim>& >(part_gen);
+
+  part.Wprim[k]   = -part.Wprim[k];
+  part.Qcons0[k]  = -part.Qcons0[k];
+  part.dQ[k]      = -part.dQ[k];
+  part.dQdt[k]    = -part.dQdt[k];
+  part.rdmdt[k]   = -part.rdmdt[k];
+  part.rdmdt0[k]  = -part.rdmdt0[k];
+
+  for (int j=0; j<ndim+2; j++) part.grad[j][k] = -part.grad[j][k];
+  for (int j=0; j<ndim; j++) {
+    part.grad[k][j] = -part.grad[k][j];
+    part.B[j][k]    = -part.B[j][k];
+    part.B[k][j]    = -part.B[k][j];
+  }
+}
+
+
 template class MfvIntegration<1,MeshlessFVParticle>;
 template class MfvIntegration<2,MeshlessFVParticle>;
 template class MfvIntegration<3,MeshlessFVParticle>;
-- 
2.43.0


From b503fc14a930b6246c90bf4da9f2f120fc9d95af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:50 +0000
Subject: [PATCH 29/77] fix: exact Riemann solver samples the fans when the
 states open a vacuum

A vacuum between the two states set ustar to zero and the flux to zero even when the interface lies
in the left state, the right state or one of the two fans; sampling such a solution gave NaNs.
---
 src/Hydrodynamics/RiemannSolver.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/Hydrodynamics/RiemannSolver.cpp b/src/Hydrodynamics/RiemannSolver.cpp
index 103db5b..f6225d1 100644
--- a/src/Hydrodynamics/RiemannSolver.cpp
+++ b/src/Hydrodynamics/RiemannSolver.cpp
@@ -176,8 +176,9 @@ void ExactRiemannSolver<ndim>::ComputeStarRegion
 
   // Check for vacuum condition
   if (cl + cr - g7*(ur - ul) <= (FLOAT) 0.0) {
+    // Two fans separated by a vacuum; ustar only needs to lie between their tails
     pstar = (FLOAT) 0.0;
-    ustar = (FLOAT) 0.0;
+    ustar = (FLOAT) 0.5*(ul + g4*cl + ur - g4*cr);
     return;
   }
 
@@ -317,7 +318,7 @@ void ExactRiemannSolver<ndim>::SampleExactSolution
         // Sampled point is inside left fan
         else {
           u = g5*(cl + g7*ul + s);
-          c = g5*(cl + g7*(ul - s));
+          c = max(g5*(cl + g7*(ul - s)), (FLOAT) 0.0);
           d = dl*pow(c/cl,g4);
           p = pl*pow(c/cl,g3);
         }
@@ -398,7 +399,7 @@ void ExactRiemannSolver<ndim>::SampleExactSolution
         // Sampled point is inside left fan
         else {
           u = g5*(-cr + g7*ur + s);
-          c = g5*(cr - g7*(ur - s));
+          c = max(g5*(cr - g7*(ur - s)), (FLOAT) 0.0);
           d = dr*pow(c/cr,g4);
           p = pr*pow(c/cr,g3);
         }
@@ -464,13 +465,14 @@ void ExactRiemannSolver<ndim>::ComputeFluxes
                     cl, cr, uleft[0], uright[0], pstar, ustar);
 
 
-  // If not a vacuum state (i.e. pstar > 0), then sample solution
+  SampleExactSolution(pstar, ustar, 0.0, Wleft[ipress], Wright[ipress], Wleft[irho],
+                      Wright[irho], cl, cr, uleft[0], uright[0], p, d, u);
+  assert(p >= 0.0);
+  assert(d >= 0.0);
+
+  // If the interface does not lie in a vacuum region (i.e. d > 0), then compute the flux
   //-----------------------------------------------------------------------------------------------
-  if (pstar > 0.0) {
-    SampleExactSolution(pstar, ustar, 0.0, Wleft[ipress], Wright[ipress], Wleft[irho],
-                        Wright[irho], cl, cr, uleft[0], uright[0], p, d, u);
-    assert(p >= 0.0);
-    assert(d >= 0.0);
+  if (d > 0.0) {
 
     for (kv=0; kv<ndim; kv++) Wface[kv] = (FLOAT) 0.0;
     Wface[irho]   = d;
-- 
2.43.0


From c097c69f880b6e685c024abbd629b795b1e50452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:50 +0000
Subject: [PATCH 30/77] fix: zero-mass-flux face of the exact Riemann solver
 moves with the contact

The face velocity and pressure were sampled at the unmoved face, so whenever that lay outside the star
region (in a fan or an undisturbed state) the face did not follow the contact discontinuity.
---
 src/Hydrodynamics/RiemannSolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Hydrodynamics/RiemannSolver.cpp b/src/Hydrodynamics/RiemannSolver.cpp
index f6225d1..7a57dfe 100644
--- a/src/Hydrodynamics/RiemannSolver.cpp
+++ b/src/Hydrodynamics/RiemannSolver.cpp
@@ -483,8 +483,9 @@ void ExactRiemannSolver<ndim>::ComputeFluxes
     // (Used for Meshless finite-mass scheme of Hopkins 2015)
     if (zeroMassFlux) {
 
-      Wface[ivx] = 0.0;
-      for (k=0; k<ndim; k++) vface[k] += u*runit[k];
+      Wface[ivx]    = 0.0;
+      Wface[ipress] = pstar;
+      for (k=0; k<ndim; k++) vface[k] += ustar*runit[k];
 
     }
     else {
-- 
2.43.0


From fa9677a69eacd24d1d79e578b2acde88bf693055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:10 +0000
Subject: [PATCH 31/77] fix: temperature of the ideal gas includes the mean
 molecular weight

---
 src/Thermal/AdiabaticEOS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Thermal/AdiabaticEOS.cpp b/src/Thermal/AdiabaticEOS.cpp
index 4422fbf..cdaa506 100644
--- a/src/Thermal/AdiabaticEOS.cpp
+++ b/src/Thermal/AdiabaticEOS.cpp
@@ -92,7 +92,7 @@ FLOAT Adiabatic<ndim>::SpecificInternalEnergy(const EosParticleProxy<ndim>&part)
 template <int ndim>
 FLOAT Adiabatic<ndim>::Temperature(const EosParticleProxy<ndim>&part)
 {
-  return gammam1*part.u;
+  return mu_bar*gammam1*part.u;
 }
 
 
-- 
2.43.0


From 0be3ddd65e90f2af047ca1eec4566616fe21bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:25 +0000
Subject: [PATCH 32/77] fix: internal energy of the polytropic equation of
 state is consistent with its pressure

---
 src/Thermal/PolytropicEOS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Thermal/PolytropicEOS.cpp b/src/Thermal/PolytropicEOS.cpp
index 8e73688..f0a5c65 100644
--- a/src/Thermal/PolytropicEOS.cpp
+++ b/src/Thermal/PolytropicEOS.cpp
@@ -32,8 +32,8 @@
 //=================================================================================================
 template <int ndim>
 Polytropic<ndim>::Polytropic(Parameters* simparams, SimUnits *units):
-  EOS<ndim>(simparams->floatparams["eta_eos"]),
-  eta(simparams->floatparams["gamma_eos"]),
+  EOS<ndim>(simparams->floatparams["gamma_eos"]),
+  eta(simparams->floatparams["eta_eos"]),
   Kpoly(simparams->floatparams["Kpoly"])
 {
 }
@@ -94,7 +94,7 @@ FLOAT Polytropic<ndim>::SoundSpeed(const EosParticleProxy<ndim>&part)
 template <int ndim>
 FLOAT Polytropic<ndim>::SpecificInternalEnergy(const EosParticleProxy<ndim>&part)
 {
-  return Kpoly*pow(part.rho, gammam1)/gammam1;
+  return Kpoly*pow(part.rho, eta - (FLOAT) 1.0)/gammam1;
 }
 
 
-- 
2.43.0


From a409013dfcc3b523efeade942999ac420e3d378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:59 +0000
Subject: [PATCH 33/77] fix: Ewald potential is interpolated from the table and
 finite at the origin

---
 src/Common/Ewald.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Common/Ewald.cpp b/src/Common/Ewald.cpp
index d3c941c..f27510f 100644
--- a/src/Common/Ewald.cpp
+++ b/src/Common/Ewald.cpp
@@ -314,7 +314,13 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
                   rni     = sqrt(rni2);
                   nterms++;
 
-                  ewald_field[ewald_index] = ewald_field[ewald_index] + erfc(ewald_alpha*rni)/rni;
+                  // At the origin, use the limit of (erfc(alpha*r) - 1)/r for the potential
+                  if (rni > (DOUBLE) 0.0) {
+                    ewald_field[ewald_index] = ewald_field[ewald_index] + erfc(ewald_alpha*rni)/rni;
+                  }
+                  else {
+                    ewald_field[ewald_index] -= 2.0*ewald_alpha/sqrt(pi);
+                  }
 
                   for (jj=1; jj<4; jj++) {
                     assert(ewald_index + jj*one_component < 4*one_component);
@@ -410,7 +416,7 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
           // subtract the 1/r term from potential and 1/r**2 from acceleration
           rni = sqrt(pow(x,2)+pow(y,2)+pow(z,2));
           assert(ewald_index + 3*one_component < 4*one_component);
-          ewald_field[ewald_index] -= 1.0/rni;
+          if (rni > (DOUBLE) 0.0) ewald_field[ewald_index] -= 1.0/rni;
           ewald_field[ewald_index + one_component] -= x/pow(rni,3);
           ewald_field[ewald_index + 2*one_component] -= y/pow(rni,3);
           ewald_field[ewald_index + 3*one_component] -= z/pow(rni,3);
@@ -418,12 +424,11 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
       }
     }
 
-    // omit NaN caused by 1/0 at the origin
-    ewald_field[0] = 0.0;
+    // omit NaN caused by 1/0 at the origin (acceleration only; the potential is finite)
     ewald_field[one_component] = 0.0;
     ewald_field[2*one_component] = 0.0;
     ewald_field[3*one_component] = 0.0;
-    assert(ewald_field[0] == 0.0 && ewald_field[one_component] == 0.0 &&
+    assert(isfinite(ewald_field[0]) && ewald_field[one_component] == 0.0 &&
            ewald_field[2*one_component] == 0 && ewald_field[3*one_component] == 0);
 
     // write the Ewald field into file
@@ -651,7 +656,7 @@ void Ewald<ndim>::CalculatePeriodicCorrection
         wf[6]*ewald_field[indexBase3 + Ngrid[0]] + wf[7] * ewald_field[indexBase3 + Ngrid[0] + 1];
     }
 
-    gpotcorr += m*ewald_field[indexBase0];
+    gpotcorr += m*grEwald[0];
     for (k=0; k<ndim; k++) {
       acorr[k] += m*grEwald[k+1]*sgn(dr[k]);
     }
-- 
2.43.0


From e392b8049c6f774e50169be0e9550cf0dba6d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 34/77] fix: second acceleration derivative of the 6th-order
 Hermite scheme sums over all stars

---
 src/Nbody/NbodyHermite6TS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index 9bd4fa4..2751639 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -151,6 +151,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       for (int k=0; k<ndim; k++) dr[k] = star[j]->r[k] - star[i]->r[k];
       for (int k=0; k<ndim; k++) dv[k] = star[j]->v[k] - star[i]->v[k];
       for (int k=0; k<ndim; k++) da[k] = star[j]->a[k] - star[i]->a[k];
+      NearestPeriodicVector(simbox, dr, dr_corr);
       drsqd = DotProduct(dr,dr,ndim) + small_number_dp;
       dvsqd = DotProduct(dv,dv,ndim);
       invdrsqd = 1.0/drsqd;
@@ -164,7 +165,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       afac = DotProduct(dv,dr,ndim)*invdrsqd;
       bfac = dvsqd*invdrsqd + afac*afac + DotProduct(da,dr,ndim)*invdrsqd;
 
-      for (int k=0; k<ndim; k++) star[i]->a2dot[k] =
+      for (int k=0; k<ndim; k++) star[i]->a2dot[k] +=
         star[j]->m*da[k]*invdrsqd*invdrmag - 6.0*afac*adot[k] - 3.0*bfac*a[k];
 
     }
-- 
2.43.0


From 28aa8319b59e61340385387f81aa4f05ce7b761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:32 +0000
Subject: [PATCH 35/77] fix: force units are read from the finunit/foutunit
 parameters

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index fa423e1..d1ebb2a 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -958,8 +958,8 @@ void SimUnits::SetupUnits(Parameters *params)
   //-----------------------------------------------------------------------------------------------
   f.inunit   = params->stringparams["finunit"];
   f.outunit  = params->stringparams["foutunit"];
-  f.inSI     = f.SIUnit(params->stringparams["forceinunit"]);
-  f.outSI    = f.SIUnit(params->stringparams["forceoutunit"]);
+  f.inSI     = f.SIUnit(params->stringparams["finunit"]);
+  f.outSI    = f.SIUnit(params->stringparams["foutunit"]);
   f.inscale  = (m.inscale*m.inSI*r.inscale*r.inSI)/
     (t.inscale*t.inscale*t.inSI*t.inSI);
   f.inscale  = f.inscale / f.inSI;
-- 
2.43.0


From 4d6ed116c19793d58c294c31d28d0a2745d5acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:32 +0000
Subject: [PATCH 36/77] fix: one gigajoule is 1e9 joule

---
 src/Common/SimUnits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index d1ebb2a..2460d5b 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -389,7 +389,7 @@ DOUBLE EnergyUnit::SIUnit(string unit_string)
 {
   if (unit_string == "J") return 1.0;
   else if (unit_string == "erg") return 1.0e-7;
-  else if (unit_string == "GJ") return 1.0e12;
+  else if (unit_string == "GJ") return 1.0e9;
   else if (unit_string == "eV") return e_charge;
   else if (unit_string == "10^40erg") return 1.0e33;
   else if (unit_string == "") return 1.0;
-- 
2.43.0


From e22a96ef93e3d91ddd59692fede21b239fa5dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:33 +0000
Subject: [PATCH 37/77] fix: one pascal is ten dyn per square centimetre

---
 src/Common/SimUnits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index 2460d5b..ba080b7 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -952,7 +952,7 @@ void SimUnits::SetupUnits(Parameters *params)
   press.outscale = (m.outscale*m.outSI) /
     (r.outscale*r.outSI*t.outscale*t.outSI*t.outscale*t.outSI);
   press.outscale = press.outscale / press.outSI;
-  press.outcgs   = 0.1*press.outSI;
+  press.outcgs   = 10.0*press.outSI;
 
   // Force units
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From ef64fbc41dd4c8b155996598b0e03aa5094c9dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:33 +0000
Subject: [PATCH 38/77] fix: luminosity unit is an energy per time, not a mass
 per time

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index ba080b7..b24154f 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1036,9 +1036,9 @@ void SimUnits::SetupUnits(Parameters *params)
   L.outunit  = params->stringparams["Loutunit"];
   L.inSI     = L.SIUnit(params->stringparams["Linunit"]);
   L.outSI    = L.SIUnit(params->stringparams["Loutunit"]);
-  L.inscale  = m.inscale*m.inSI/(t.inscale*t.inSI);
+  L.inscale  = m.inscale*m.inSI*pow(r.inscale*r.inSI,2)/pow(t.inscale*t.inSI,3);
   L.inscale  = L.inscale / L.inSI;
-  L.outscale = m.outscale*m.outSI/(t.outscale*t.outSI);
+  L.outscale = m.outscale*m.outSI*pow(r.outscale*r.outSI,2)/pow(t.outscale*t.outSI,3);
   L.outscale = L.outscale / L.outSI;
   L.outcgs   = 1.0e7*L.outSI;
 
-- 
2.43.0


From c82a2be8f0c00fe5b509bce5a6fd5f7b6453ad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:33 +0000
Subject: [PATCH 39/77] fix: magnetic field, charge and current units take
 their own unit names

---
 src/Common/SimUnits.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index b24154f..e8da430 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1057,20 +1057,20 @@ void SimUnits::SetupUnits(Parameters *params)
 
   // Magnetic field units
   //-----------------------------------------------------------------------------------------------
-  B.inunit  = params->stringparams["kappainunit"];
-  B.outunit = params->stringparams["kappaoutunit"];
+  B.inunit  = params->stringparams["Binunit"];
+  B.outunit = params->stringparams["Boutunit"];
 
 
   // Electrical charge units
   //-----------------------------------------------------------------------------------------------
-  Q.inunit  = params->stringparams["kappainunit"];
-  Q.outunit = params->stringparams["kappaoutunit"];
+  Q.inunit  = params->stringparams["Qinunit"];
+  Q.outunit = params->stringparams["Qoutunit"];
 
 
   // Current density units
   //-----------------------------------------------------------------------------------------------
-  Jcur.inunit  = params->stringparams["kappainunit"];
-  Jcur.outunit = params->stringparams["kappaoutunit"];
+  Jcur.inunit  = params->stringparams["Jcurinunit"];
+  Jcur.outunit = params->stringparams["Jcuroutunit"];
 
 
   // Specific internal energy units
-- 
2.43.0


From 9cba15ef2ed22a5642e89683e306d70de740b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:33 +0000
Subject: [PATCH 40/77] fix: sink density threshold of the meshless schemes is
 converted from g cm^-3 to code units

---
 src/MeshlessFV/MeshlessFVSimulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 9705427..48e0ff3 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -328,7 +328,7 @@ void MeshlessFVSimulation<ndim>::ProcessParameters(void)
   sinks->smooth_accrete_dt   = floatparams["smooth_accrete_dt"];
   sinks->sink_radius_mode    = stringparams["sink_radius_mode"];
   sinks->rho_sink            = floatparams["rho_sink"];
-  sinks->rho_sink            /= simunits.rho.outscale/simunits.rho.outcgs;
+  sinks->rho_sink            /= (simunits.rho.outscale*simunits.rho.outcgs);
 
   if (sinks->sink_radius_mode == "fixed") {
     sinks->sink_radius = floatparams["sink_radius"]/simunits.r.outscale;
-- 
2.43.0


From 4c4ac041abc3337a9acecca8781238f929282940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:12 +0000
Subject: [PATCH 41/77] fix: Boss-Bodenheimer cloud has the requested mass with
 lattice distributions

---
 src/Ic/BossBodenheimerIc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Ic/BossBodenheimerIc.cpp b/src/Ic/BossBodenheimerIc.cpp
index 99a7d68..6444b65 100644
--- a/src/Ic/BossBodenheimerIc.cpp
+++ b/src/Ic/BossBodenheimerIc.cpp
@@ -88,7 +88,6 @@ void BossBodenheimerIc<ndim>::Generate(void)
 
     FLOAT *r = new FLOAT[ndim*Npart];
     FLOAT *v = new FLOAT[ndim*Npart];
-    FLOAT mp = mcloud / (FLOAT) Npart;
 
     // Add a sphere of random particles with origin 'rcentre' and radius 'radius'
     for (k=0; k<ndim; k++) rcentre[k] = (FLOAT) 0.0;
@@ -110,6 +109,9 @@ void BossBodenheimerIc<ndim>::Generate(void)
       ExceptionHandler::getIstance().raise(message);
     }
 
+    // Particle mass (for the actual number of particles in the sphere)
+    const FLOAT mp = mcloud / (FLOAT) Npart;
+
     // Allocate local and main particle memory
     hydro->Nhydro = Npart;
     if (dusty_collapse) hydro->Nhydro *= 2;
-- 
2.43.0


From c62879e5e280bf0b32582f529f3e1a07b62f34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:36 +0000
Subject: [PATCH 42/77] fix: density search is repeated when the neighbour list
 is too small for the sink smoothing length

---
 src/GradhSph/GradhSphTree.cpp     | 2 +-
 src/MeshlessFV/MeshlessFVTree.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index c0390af..d09bed0 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -229,7 +229,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphProperties
 
           // If h-computation is invalid, then break from loop and recompute
           // larger neighbour lists
-          if (okflag == 0) {
+          if (okflag != 1) {
             celldone = 0;
             break;
           }
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index 91f7294..87493b4 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -258,7 +258,7 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateAllProperties
           okflag = mfv->ComputeH(i, Ngather, hmax, m2, mu2, drsqd, gpot, activepart[j], nbody);
 
           // If h-computation is invalid, then break from loop and recompute larger neighbour lists
-          if (okflag == 0) {
+          if (okflag != 1) {
             celldone = 0;
             break;
           }
-- 
2.43.0


From c58f90d2499b94b5b4aa37f69a4230d3278f735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:24 +0000
Subject: [PATCH 43/77] fix: smoothing lengths at the sink minimum and their
 densities are consistent

---
 src/GradhSph/GradhSph.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index d90769d..86fae99 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -168,6 +168,7 @@ int GradhSph<ndim, kernelclass>::ComputeH
     if (hmax < h_lower_bound) return -1;
   }
   rho_hmin = (FLOAT) 0.0;
+  const FLOAT h_floor = h_lower_bound;
 
   int Nneib = ngbs.size();
 
@@ -216,16 +217,19 @@ int GradhSph<ndim, kernelclass>::ComputeH
     else invrho = (FLOAT) 0.0;
 
     // If h changes below some fixed tolerance, exit iteration loop
-    if (parti.rho > (FLOAT) 0.0 && parti.h > h_lower_bound &&
+    if (parti.rho > (FLOAT) 0.0 && parti.h >= h_floor &&
         fabs(parti.h - h_rho_func(parti.m, parti.rho))*invh < h_converge) break;
 
+    // If h should be below the minimum, then the density at the minimum h is the final one
+    if (parti.h == h_floor && h_rho_func(parti.m, parti.rho) <= h_floor) break;
+
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim), for now.  If this does
     // not converge in a reasonable number of iterations (iteration_max), then assume something is
     // wrong and switch to a bisection method, which should be guaranteed to converge, albeit much
     // more slowly.  (N.B. will implement Newton-Raphson soon)
     //---------------------------------------------------------------------------------------------
     if (iteration < iteration_max) {
-      parti.h = h_rho_func(parti.m, parti.rho);
+      parti.h = max(h_rho_func(parti.m, parti.rho), h_floor);
     }
     else if (iteration == iteration_max) {
       parti.h = (FLOAT) 0.5*(h_lower_bound + h_upper_bound);
@@ -254,18 +258,18 @@ int GradhSph<ndim, kernelclass>::ComputeH
     // list error in order to generate a larger neighbour list (not properly implemented yet).
     if (parti.h > hmax) return 0;
 
-  } while (parti.h > h_lower_bound && parti.h < h_upper_bound);
+  } while ((parti.h > h_lower_bound || iteration < iteration_max) && parti.h < h_upper_bound);
   //===============================================================================================
 
 
   // Normalise all SPH sums correctly
-  parti.h         = max(h_rho_func(parti.m, parti.rho), h_lower_bound);
+  parti.h         = max(h_rho_func(parti.m, parti.rho), h_floor);
   invh            = 1/parti.h;
   parti.hfactor   = pow(invh, ndim+1);
   parti.hrangesqd = kern.kernrangesqd*parti.h*parti.h;
   parti.div_v     = (FLOAT) 0.0;
   assert(isnormal(part.h));
-  assert(part.h >= h_lower_bound);
+  assert(part.h >= h_floor);
 
   // Calculate the minimum neighbour potential (used later to identify new sinks)
   if (create_sinks == 1) {
-- 
2.43.0


From dd5f0f3a6a2900626f462d9fffbfd049b3db9ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:24 +0000
Subject: [PATCH 44/77] fix: column snapshots hold only live particles, like
 the other formats

---
 src/Common/SimulationIO.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 05ea562..75ae152 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -290,7 +290,11 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
 
   // Collect total number of particles
   int Ntotsph;
-  MPI_Allreduce(&hydro->Nhydro, &Ntotsph, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+  int Nlivehydro = 0;
+  for (i=0; i<hydro->Nhydro; i++) {
+    if (!hydro->GetParticlePointer(i).flags.is_dead()) Nlivehydro++;
+  }
+  MPI_Allreduce(&Nlivehydro, &Ntotsph, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
   int Ntotstar;
   MPI_Allreduce(&nbody->Nstar, &Ntotstar, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
 
@@ -302,10 +306,11 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
     outfile << t*simunits.t.outscale << endl;
   }
 
-  // Write data for hydro particles
+  // Write data for (live) hydro particles
   //-----------------------------------------------------------------------------------------------
   for (i=0; i<hydro->Nhydro; i++) {
     Particle<ndim>& part = hydro->GetParticlePointer(i);
+    if (part.flags.is_dead()) continue;
     if (ndim == 1)
       outfile << part.r[0]*simunits.r.outscale << "   "
               << part.v[0]*simunits.v.outscale << "   "
@@ -450,17 +455,24 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
 
   cout << "Writing current data to snapshot file : " << filename << endl;
 
+  // Only live particles are written
+  int Nlivehydro = 0;
+  for (i=0; i<hydro->Nhydro; i++) {
+    if (!hydro->GetParticlePointer(i).flags.is_dead()) Nlivehydro++;
+  }
+
   // Open file and read header information
   outfile.open(filename.c_str());
-  outfile << hydro->Nhydro << endl;
+  outfile << Nlivehydro << endl;
   outfile << nbody->Nstar << endl;
   outfile << ndim << endl;
   outfile << t*simunits.t.outscale << endl;
 
-  // Write data for hydro particles
+  // Write data for (live) hydro particles
   //-----------------------------------------------------------------------------------------------
   for (i=0; i<hydro->Nhydro; i++) {
     Particle<ndim>& part = hydro->GetParticlePointer(i);
+    if (part.flags.is_dead()) continue;
     if (ndim == 1) {
       outfile << part.r[0]*simunits.r.outscale << "   "
               << part.v[0]*simunits.v.outscale << "   "
-- 
2.43.0


From be3e361d885ef721a12ee814a66bbec75076968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:24 +0000
Subject: [PATCH 45/77] fix: time of a column snapshot is converted to code
 units once

---
 src/Common/SimulationIO.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 75ae152..8d8cc21 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -203,7 +203,7 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
   infile.open(filename.c_str());
 
   ReadColumnHeaderFile(infile, info);
-  t = info.t;
+  t = info.t*simunits.t.inscale;
   tsnaplast = t;
 
   hydro->Nhydro = info.Nhydro;
-- 
2.43.0


From e538ee644602559df8003a1889da4adb4016c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:38 +0000
Subject: [PATCH 46/77] fix: interactive runs do not try to load lite snapshots

---
 src/Common/Simulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 4f33869..9736f20 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -533,9 +533,9 @@ string SimulationBase::Output(void)
     nostring = "";
     ss << setfill('0') << setw(5) << Noutlitesnap;
     nostring = ss.str();
-    filename = run_id + ".slite." + nostring;
+    string litename = run_id + ".slite." + nostring;
     ss.str(std::string());
-    WriteSnapshotFile(filename,"slite");
+    WriteSnapshotFile(litename,"slite");
 
   }
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From cba40ece45aaf300389a6ab9544f50f079dafa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:25 +0000
Subject: [PATCH 47/77] fix: restarted N-body runs continue the numbering of
 snapshots

---
 src/Nbody/NbodySimulation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index a0f7be8..8fb28e2 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -188,7 +188,6 @@ void NbodySimulation<ndim>::PostInitialConditionsSetup(void)
   debug2("[NbodySimulation::PostInitialConditionsSetup]");
 
   // Set time variables here (for now)
-  Noutsnap = 0;
   nresync = 0;
   //tsnapnext = dt_snap;
 
-- 
2.43.0


From 7270c17262f43cd8a875162d4570570a41bd3557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 48/77] fix: restart before the first snapshot keeps the
 requested time of the first snapshot

---
 src/Common/SimulationIO.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 8d8cc21..0a3066b 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -2563,8 +2563,8 @@ void Simulation<ndim>::ConvertToCodeUnits(void)
   tlitesnaplast /= simunits.t.inscale;
   hydro->mmean  /= simunits.m.inscale;
   if (restart) {
-    tsnapnext = tsnaplast + dt_snap;
-    tlitesnapnext = tlitesnaplast + dt_litesnap;
+    if (Noutsnap > 0) tsnapnext = tsnaplast + dt_snap;
+    if (Noutlitesnap > 0) tlitesnapnext = tlitesnaplast + dt_litesnap;
   }
 
   return;
-- 
2.43.0


From f29e5d58f744a4d58b7154a048c2767235e0f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:59 +0000
Subject: [PATCH 49/77] fix: isothermal spheres have the configured number of
 particles

---
 src/Ic/IsothermalSphereIc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Ic/IsothermalSphereIc.cpp b/src/Ic/IsothermalSphereIc.cpp
index 90ddece..56ca39c 100644
--- a/src/Ic/IsothermalSphereIc.cpp
+++ b/src/Ic/IsothermalSphereIc.cpp
@@ -59,7 +59,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     FLOAT *r;                         // Particle position vectors
 
     // Local copies of important parameters
-    int Npart            = simparams->intparams["Nsph"];
+    int Npart            = simparams->intparams["Nhydro"];
     FLOAT mcloud         = simparams->floatparams["mcloud"];
     FLOAT radius         = simparams->floatparams["radius"];
     FLOAT rhofluid       = simparams->floatparams["rhofluid1"];
@@ -131,7 +131,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     FLOAT pc = 3.08567758*pow(10,16);    // ..
 
     // Local copies of important parameters
-    int Npart            = simparams->intparams["Nsph"];
+    int Npart            = simparams->intparams["Nhydro"];
     FLOAT mcloud         = simparams->floatparams["mcloud"];
     FLOAT radius         = simparams->floatparams["radius"];
     FLOAT rhofluid       = simparams->floatparams["rhofluid1"];
@@ -230,7 +230,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     DOUBLE *vfield;                   // ..
 
     // Local copies of important parameters
-    int Npart            = simparams->intparams["Nsph"];
+    int Npart            = simparams->intparams["Nhydro"];
     int field_type       = simparams->intparams["field_type"];
     int gridsize         = simparams->intparams["gridsize"];
     FLOAT mcloud         = simparams->floatparams["mcloud"];
-- 
2.43.0


From 30cd2f0d1ad8438b2603a7f9821880835d764bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:32 +0000
Subject: [PATCH 50/77] fix: net force and steps in the diagnostics file are in
 output units

---
 src/Common/SimAnalysis.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Common/SimAnalysis.hpp b/src/Common/SimAnalysis.hpp
index 9028e6e..967d723 100644
--- a/src/Common/SimAnalysis.hpp
+++ b/src/Common/SimAnalysis.hpp
@@ -256,9 +256,9 @@ void Simulation<ndim>::RecordDiagnostics(void)
 
   outfile << t*simunits.t.outscale << "     ";
   outfile << Nsteps << "      ";
-  outfile << timestep << "      ";
-  outfile << dt_min_hydro << "      ";
-  outfile << dt_min_nbody << "      ";
+  outfile << timestep*simunits.t.outscale << "      ";
+  outfile << dt_min_hydro*simunits.t.outscale << "      ";
+  outfile << dt_min_nbody*simunits.t.outscale << "      ";
   outfile << level_max << "      ";
   outfile << diag.Nhydro << "     ";
   outfile << diag.Nstar << "     ";
@@ -272,7 +272,7 @@ void Simulation<ndim>::RecordDiagnostics(void)
   for (k=0; k<ndim; k++) outfile << diag.rcom[k]*simunits.r.outscale << "     ";
   for (k=0; k<ndim; k++) outfile << diag.vcom[k]*simunits.v.outscale << "     ";
   for (k=0; k<ndim; k++) outfile << diag.mom[k]*simunits.mom.outscale << "     ";
-  for (k=0; k<ndim; k++) outfile << diag.force[k] << "     "; //*simunits.f.outscale << "     ";
+  for (k=0; k<ndim; k++) outfile << diag.force[k]*simunits.f.outscale << "     ";
   outfile << endl;
 
   outfile.close();
-- 
2.43.0


From 55b32cb0848d2db5620f3b7f67af03290863f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:33 +0000
Subject: [PATCH 51/77] fix: gather search does not write before the list when
 an earlier tree overflowed it

---
 src/Tree/Tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 2db057c..ca7f2d1 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -224,6 +224,9 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeGatherNeighbourList
   assert(partdata != NULL);
   assert(neiblist != NULL);
 
+  // Exit immediately if we have overflowed the neighbour list buffer (in a previous tree)
+  if (Nneib == -1) return -1;
+
 
   //===============================================================================================
   while (cc < Ncell) {
-- 
2.43.0


From 052a614a892ddaaa860ba88aa6ce8ebe6381c4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:33 +0000
Subject: [PATCH 52/77] fix: sink candidates approaching (not receding from) a
 sink within a free-fall time are ignored

---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index f6b33c6..cbe1975 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -181,7 +181,7 @@ void Sinks<ndim>::SearchForNewSinkParticles
 
         // If sink candidate will reach another sink within the current freefall time, then
         // ignore candidate since it will likely be accreted or tidally perturbed
-        if (tff > drsqd / dvdr && dvdr > 0) sink_flag = false;
+        if (tff > -drsqd / dvdr && dvdr < 0) sink_flag = false;
 
         // Hill sphere criterion (slightly different numerical factor from Seren implementation)
         if (part.rho < -dadr/drsqd ) sink_flag = false;
-- 
2.43.0


From e8a59dabda9bbe2230ce745a98153010e221096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:33 +0000
Subject: [PATCH 53/77] fix: overlap of new sinks is judged with the radius
 they would have

---
 src/Nbody/Sinks.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index cbe1975..91386ff 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -187,7 +187,10 @@ void Sinks<ndim>::SearchForNewSinkParticles
         if (part.rho < -dadr/drsqd ) sink_flag = false;
 
         // If hydro particle neighbours a nearby sink, skip to next particle
-        if (drsqd < pow(sink_radius*part.h + sink[s].radius, 2)) sink_flag = false;
+        FLOAT rsink = hydro->kernp->kernrange*part.h;
+        if (sink_radius_mode == "fixed") rsink = sink_radius;
+        else if (sink_radius_mode == "hmult") rsink = sink_radius*part.h;
+        if (drsqd < pow(rsink + sink[s].radius, 2)) sink_flag = false;
 
         // Skip looping over other sinks if sink candidate has already been excluded
         if (!sink_flag) break;
-- 
2.43.0


From 6b30ee23f1a52c6f133a410e93cea08f921726f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:33 +0000
Subject: [PATCH 54/77] fix: no more than Nsinkfixed sinks are created in one
 search

---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 91386ff..c3370b8 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -273,7 +273,7 @@ void Sinks<ndim>::SearchForNewSinkParticles
       Nsink++;
     }
 
-  } while (isink != -1);
+  } while (isink != -1 && (Nsinkfixed == -1 || Nsink < Nsinkfixed));
   //===============================================================================================
 
 
-- 
2.43.0


From 2ecded36aa38d48372e6d32a736e001cac604b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:33 +0000
Subject: [PATCH 55/77] fix: total accreted mass of sinks is recorded

---
 src/Nbody/Sinks.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index c3370b8..4557edf 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -714,6 +714,7 @@ void Sinks<ndim>::AccreteMassToSinks
         }
 #endif
         macc -= mtemp;
+        sink[s].macctot += mtemp;
 
 
         // Calculate angular momentum of old COM around new COM
-- 
2.43.0


From c26d36f5f3f98dcf3dcb4a3066a581c30c58c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:57 +0000
Subject: [PATCH 56/77] fix: gas accreted by sinks across periodic boundaries
 is removed, reflections are not accreted

---
 src/Headers/Sinks.h |  1 +
 src/Nbody/Sinks.cpp | 51 ++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/Headers/Sinks.h b/src/Headers/Sinks.h
index 396f7ed..a34ee8a 100644
--- a/src/Headers/Sinks.h
+++ b/src/Headers/Sinks.h
@@ -141,6 +141,7 @@ class Sinks
                                  Hydrodynamics<ndim> *, Nbody<ndim> *);
   void CreateNewSinkParticle(const int, const FLOAT, Particle<ndim>&,
                              Hydrodynamics<ndim> *, Nbody<ndim> *);
+  int OriginalParticle(int, Hydrodynamics<ndim> *);
   void AccreteMassToSinks(const int, const FLOAT,
                           Hydrodynamics<ndim> *, Nbody<ndim> *);
 
diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 4557edf..667a588 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -359,6 +359,24 @@ void Sinks<ndim>::CreateNewSinkParticle
 
 
 
+//=================================================================================================
+//  Sinks::OriginalParticle
+/// Return the id of the real particle which particle 'i' is a (local) boundary ghost of, or 'i'
+/// itself if it is not such a ghost.
+//=================================================================================================
+template <int ndim>
+int Sinks<ndim>::OriginalParticle
+ (int i,                               ///< [in] Particle i.d.
+  Hydrodynamics<ndim> *hydro)          ///< [in] Object containing SPH ptcls
+{
+  while (i >= hydro->Nhydro && i < hydro->Nhydro + hydro->NPeriodicGhost) {
+    i = hydro->GetParticlePointer(i).iorig;
+  }
+  return i;
+}
+
+
+
 //=================================================================================================
 //  Sinks::AcceteMassToSinks
 /// Identify all SPH particles inside sinks and accrete some fraction (or all)
@@ -455,15 +473,23 @@ void Sinks<ndim>::AccreteMassToSinks
       for (j=0; j<Nlist; j++) {
         i = neiblist[j];
         Particle<ndim>& part = hydro->GetParticlePointer(i);
-        if (part.flags.is_dead()) continue;
+        if (part.flags.is_dead() || part.flags.is_mirror()) continue;
 
         for (k=0; k<ndim; k++) dr[k] = part.r[k] - sink[s].star->r[k];
         drsqd = DotProduct(dr, dr, ndim);
 
         if (drsqd <= sink[s].radius*sink[s].radius) {
 #pragma omp critical
-          part.sinkid = s;
-          sink[s].Ngas++;
+          {
+            // A particle and its periodic images can only belong to a single sink
+            int iorig = OriginalParticle(i, hydro);
+            Particle<ndim>& orig = hydro->GetParticlePointer(iorig);
+            if (iorig == i || orig.sinkid == -1) {
+              part.sinkid = s;
+              orig.sinkid = s;
+              sink[s].Ngas++;
+            }
+          }
         }
 
       }
@@ -516,7 +542,7 @@ void Sinks<ndim>::AccreteMassToSinks
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         if (part.flags.is_dead()) continue;
 
-        if (part.sinkid == s) {
+        if (part.sinkid == s && hydro->GetParticlePointer(OriginalParticle(i, hydro)).sinkid == s) {
           for (k=0; k<ndim; k++) dr[k] = part.r[k] - sink[s].star->r[k];
           drsqd = DotProduct(dr, dr, ndim);
           if (drsqd > sink[s].radius*sink[s].radius) continue;
@@ -647,7 +673,8 @@ void Sinks<ndim>::AccreteMassToSinks
         sink[s].star->m += mtemp;
         for (k=0; k<ndim; k++) sink[s].star->r[k] += mtemp*part.r[k];
         for (k=0; k<ndim; k++) sink[s].star->v[k] += mtemp*part.v[k];
-        for (k=0; k<ndim; k++) sink[s].star->a[k] += mtemp*part.a[k];
+        for (k=0; k<ndim; k++) sink[s].star->a[k] +=
+          mtemp*hydro->GetParticlePointer(OriginalParticle(i, hydro)).a[k];
         //for (k=0; k<ndim; k++) sink[s].star->adot[k] += mtemp*part.adot[k];
         sink[s].utot += mtemp*part.u;
 
@@ -706,6 +733,20 @@ void Sinks<ndim>::AccreteMassToSinks
           //part.m -= mtemp;
           hydro->AccreteMassFromParticle(mtemp, part);
         }
+
+        // Periodic images are accreted together with the particles they are images of
+        const int iorig = OriginalParticle(i, hydro);
+        if (iorig != i) {
+          Particle<ndim>& orig = hydro->GetParticlePointer(iorig);
+          if (part.flags.is_dead()) {
+            orig.m = (FLOAT) 0.0;
+            orig.flags.set(dead);
+            orig.flags.unset(active);
+          }
+          else {
+            hydro->AccreteMassFromParticle(mtemp, orig);
+          }
+        }
 #if defined MPI_PARALLEL
         if (i > hydro->Nhydro) {
           // We are accreting a MPI ghost, so we need to record that to transmit it to the owner
-- 
2.43.0


From e6a8271abf2734751758cf83811fba57e6443469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:27 +0000
Subject: [PATCH 57/77] fix: smooth accretion uses the smoothing length of the
 sink

---
 src/Nbody/Sinks.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 667a588..d68cab3 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -532,6 +532,7 @@ void Sinks<ndim>::AccreteMassToSinks
       sink[s].ketot    = (FLOAT) 0.0;
       sink[s].rotketot = (FLOAT) 0.0;
       sink[s].gpetot   = (FLOAT) 0.0;
+      const FLOAT invhsink = (FLOAT) 1.0/sink[s].star->h;
 
       Nlist = neibsearch->GetGatherNeighbourList
        (sink[s].star->r, sink[s].radius, partdata, hydro->Nhydro, Nneibmax, neiblist);
@@ -572,12 +573,12 @@ void Sinks<ndim>::AccreteMassToSinks
         for (k=0; k<ndim; k++) dr[k] /= drmag;
 
         sink[s].menc += part.m;
-        wnorm += part.m*hydro->kernp->w0(drmag*sink[s].star->invh)*
-          pow(sink[s].star->invh,ndim)/part.rho;
+        wnorm += part.m*hydro->kernp->w0(drmag*invhsink)*
+          pow(invhsink,ndim)/part.rho;
 
         // Sum total grav. potential energy of all particles inside sink
         sink[s].gpetot += (FLOAT) 0.5*part.m*(sink[s].star->m + sink[s].menc)*
-          sink[s].star->invh*hydro->kernp->wpot(drmag*sink[s].star->invh);
+          invhsink*hydro->kernp->wpot(drmag*invhsink);
 
         // Compute rotational component of kinetic energy
         for (k=0; k<ndim; k++) dv[k] = part.v[k] - sink[s].star->v[k];
@@ -585,14 +586,14 @@ void Sinks<ndim>::AccreteMassToSinks
 
         // Compute total and rotational kinetic energies
         sink[s].ketot += part.m*DotProduct(dv,dv,ndim)*
-          hydro->kernp->w0(drmag*sink[s].star->invh)*pow(sink[s].star->invh,ndim)/part.rho;
+          hydro->kernp->w0(drmag*invhsink)*pow(invhsink,ndim)/part.rho;
         sink[s].rotketot += part.m*DotProduct(dvtang,dvtang,ndim)*
-          hydro->kernp->w0(drmag*sink[s].star->invh)*pow(sink[s].star->invh,ndim)/part.rho;
+          hydro->kernp->w0(drmag*invhsink)*pow(invhsink,ndim)/part.rho;
 
         // Add contributions to average timescales from particles
         sink[s].tvisc *= pow(sqrt(drmag)/part.sound/part.sound,part.m);
         sink[s].trad += fabs((FLOAT) 4.0*pi*drsqd*part.m*DotProduct(dv,dr,ndim)*
-                             hydro->kernp->w0(drmag*sink[s].star->invh)*pow(sink[s].star->invh,ndim));
+                             hydro->kernp->w0(drmag*invhsink)*pow(invhsink,ndim));
 
       }
       //-------------------------------------------------------------------------------------------
-- 
2.43.0


From d4e31cd061a5375de0b1776080bab7e851b4c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:40 +0000
Subject: [PATCH 58/77] fix: meshless densities are updated after sinks
 accreted gas

---
 src/MeshlessFV/MfvMusclSimulation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MeshlessFV/MfvMusclSimulation.cpp b/src/MeshlessFV/MfvMusclSimulation.cpp
index 7c7daf6..d231027 100644
--- a/src/MeshlessFV/MfvMusclSimulation.cpp
+++ b/src/MeshlessFV/MfvMusclSimulation.cpp
@@ -279,6 +279,12 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
       sinks->AccreteMassToSinks(n, timestep, mfv, nbody);
       nbody->UpdateStellarProperties();
       //if (extra_sink_output) WriteExtraSinkOutput();
+
+      // The gas taken by the sinks no longer contributes to the density of its neighbours
+      for (i=0; i<mfv->Nhydro; i++) {
+        MeshlessFVParticle<ndim>& part = mfv->GetMeshlessFVParticlePointer(i);
+        if (part.flags.check(active)) part.flags.set(update_density);
+      }
     }
 
     // Stock after sink accretion (1, 2 is a hack to force stocking)
-- 
2.43.0


From 97feb5acb1ad23c43a0f24149cb58831e2ff40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:16 +0000
Subject: [PATCH 59/77] fix: smooth accretion from meshless particles is not
 undone in the middle of their steps

---
 src/Headers/MeshlessFV.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index e0933fe..86d2c83 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -112,9 +112,9 @@ public:
   virtual void AccreteMassFromParticle(const FLOAT dm, Particle<ndim> &part) {
     MeshlessFVParticle<ndim>& mfvpart = static_cast<MeshlessFVParticle<ndim>& > (part);
     mfvpart.m -= dm;
-    mfvpart.dQ[irho] -= dm;
+    mfvpart.Qcons0[irho] -= dm;
     //mfvpart.dQ[ietot] -= dm*part.u;
-    for (int k=0; k<ndim; k++) mfvpart.dQ[k] -= dm*mfvpart.v[k];
+    for (int k=0; k<ndim; k++) mfvpart.Qcons0[k] -= dm*mfvpart.v[k];
   }
 
   virtual void ZeroAccelerations();
-- 
2.43.0


From 0f5390266e9b455fbe414562c55cadf8ac39ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:56 +0000
Subject: [PATCH 60/77] fix: smooth accretion of gas at the edge of a sink only
 has finite rates

---
 src/Nbody/Sinks.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index d68cab3..03b818d 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -600,8 +600,10 @@ void Sinks<ndim>::AccreteMassToSinks
 
 
       // Normalise SPH sums correctly
-      sink[s].ketot *= (FLOAT) 0.5*sink[s].menc/wnorm;
-      sink[s].rotketot *= (FLOAT) 0.5*sink[s].menc/wnorm;
+      if (wnorm > (FLOAT) 0.0) {
+        sink[s].ketot *= (FLOAT) 0.5*sink[s].menc/wnorm;
+        sink[s].rotketot *= (FLOAT) 0.5*sink[s].menc/wnorm;
+      }
 
 
       // Calculate the sink accretion timescale and the total amount of mass accreted by sink s
-- 
2.43.0


From 60d2827b25b7904e2f966c82f26a41c3484f010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:41 +0000
Subject: [PATCH 61/77] fix: meshless potential minima are known before the
 first search for sinks

---
 src/MeshlessFV/MeshlessFVSimulation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 48e0ff3..0514b57 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -683,6 +683,11 @@ void MeshlessFVSimulation<ndim>::PostInitialConditionsSetup(void)
      */
   } // End of force iteration.
 
+  // Find potential minima for the first sinks now the potential is known
+  if (mfv->create_sinks == 1 && mfv->self_gravity == 1) {
+    mfvneib->UpdateGradientMatrices(mfv, nbody, simbox);
+  }
+
   // ..
   for (i=0; i<mfv->Nhydro; i++) {
     MeshlessFVParticle<ndim>& part = mfv->GetMeshlessFVParticlePointer(i);
-- 
2.43.0


From f0c64a6fe0c1d9012c208deb53d097b2e2a71fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:45 +0000
Subject: [PATCH 62/77] fix: each side of a Runge-Kutta meshless face is
 evolved with its own gradients

---
 src/MeshlessFV/MfvRungeKutta.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index 4753401..5617b24 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -82,7 +82,8 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
   FLOAT Wleft[nvar];                   // Primitive vector for LHS of Riemann problem
   FLOAT Wright[nvar];                  // Primitive vector for RHS of Riemann problem
   FLOAT Wdot[nvar];                    // Time derivative of primitive vector
-  FLOAT gradW[nvar][ndim];             // Gradient of primitive vector
+  FLOAT gradWleft[nvar][ndim];         // Gradient of primitive vector for LHS
+  FLOAT gradWright[nvar][ndim];        // Gradient of primitive vector for RHS
   FLOAT dW[nvar];                      // Change in primitive quantities
   const FLOAT dt = timestep*(FLOAT) part.nstep;    // Timestep of given particle
 
@@ -151,13 +152,13 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
 
     // Compute slope-limited values for LHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - part.r[k];
-    limiter.ComputeLimitedSlopes(part, neibpart[j], draux, gradW, dW);
+    limiter.ComputeLimitedSlopes(part, neibpart[j], draux, gradWleft, dW);
     for (var=0; var<nvar; var++) Wleft[var] = part.Wprim[var] + dW[var];
     for (k=0; k<ndim; k++) Wleft[k] -= vface[k];
 
     // Compute slope-limited values for RHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - neibpart[j].r[k];
-    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradW, dW);
+    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradWright, dW);
     for (var=0; var<nvar; var++) Wright[var] = neibpart[j].Wprim[var] + dW[var];
     for (k=0; k<ndim; k++) Wright[k] -= vface[k];
 
@@ -179,12 +180,12 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     }
 
     // Time-integrate LHS state to half-timestep value
-    this->CalculatePrimitiveTimeDerivative(Wleft, gradW, part.sound, Wdot);
+    this->CalculatePrimitiveTimeDerivative(Wleft, gradWleft, part.sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += part.a[k];
     for (var=0; var<nvar; var++) Wleft[var] += (FLOAT) Wdot[var]*dt;
 
     // Time-integrate RHS state to half-timestep value
-    this->CalculatePrimitiveTimeDerivative(Wright, gradW, neibpart[j].sound, Wdot);
+    this->CalculatePrimitiveTimeDerivative(Wright, gradWright, neibpart[j].sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += neibpart[j].a[k];
     for (var=0; var<nvar; var++) Wright[var] += (FLOAT) Wdot[var]*dt;
 
-- 
2.43.0


From 4fb6558e96255e792eaccbd039b6acc13ce69b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:13 +0000
Subject: [PATCH 63/77] fix: smallest sink smoothing length reaches the
 meshless density sums

---
 src/Headers/MeshlessFV.h      | 2 +-
 src/MeshlessFV/MeshlessFV.cpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index 86d2c83..1feb311 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -65,6 +65,7 @@ public:
   using Hydrodynamics<ndim>::allocated;
   using Hydrodynamics<ndim>::eos;
   using Hydrodynamics<ndim>::h_fac;
+  using Hydrodynamics<ndim>::hmin_sink;
   using Hydrodynamics<ndim>::hydrodata_unsafe;
   using Hydrodynamics<ndim>::hydro_forces;
   using Hydrodynamics<ndim>::invndim;
@@ -163,7 +164,6 @@ public:
   int create_sinks;                    ///< Create new sink particles?
   int fixed_sink_mass;                 ///< Fix masses of sink particles
   FLOAT msink_fixed;                   ///< Fixed sink mass value
-  FLOAT hmin_sink;                     ///< Minimum smoothing length of sinks
   string riemann_solver;               ///< Selected Riemann solver
   string slope_limiter;                ///< Selected slope limiter
   string timestep_limiter;            ///< Time of limiter used for block timesteps
diff --git a/src/MeshlessFV/MeshlessFV.cpp b/src/MeshlessFV/MeshlessFV.cpp
index ea9936d..218dafc 100644
--- a/src/MeshlessFV/MeshlessFV.cpp
+++ b/src/MeshlessFV/MeshlessFV.cpp
@@ -69,6 +69,8 @@ MeshlessFV<ndim>::MeshlessFV(int _hydro_forces, int _self_gravity, FLOAT _accel_
 
   timestep_limiter = stringparams["time_step_limiter"] ;
 
+  hmin_sink = big_number;
+
 }
 
 
-- 
2.43.0


From 937268ce169ecdfcac0c0eccb340fd6d00c0c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:39 +0000
Subject: [PATCH 64/77] fix: drift-kick-drift steps with global time-steps are
 not twice the criterion

---
 src/Common/Simulation.cpp     | 6 +++---
 src/Nbody/NbodySimulation.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 9736f20..5d9d396 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1737,13 +1737,13 @@ void Simulation<ndim>::ComputeGlobalTimestep() {
      dt = dt_min;
      MPI_Allreduce(&dt, &dt_min, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
  #endif
-     timestep = dt_min;
+     timestep = dt_min / (DOUBLE) nresync;
 
      // Set minimum timestep for all hydro and N-body particles
      if (hydro != NULL)
-       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = timestep;
+       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = dt_min;
      if (nbody != NULL)
-       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = timestep;
+       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = dt_min;
 
    }
    //-----------------------------------------------------------------------------------------------
diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 8fb28e2..c7f9852 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -442,12 +442,12 @@ void NbodySimulation<ndim>::ComputeGlobalTimestep(void)
     }
 
     // Set all particles to same timestep
-    timestep = dt_min;
+    timestep = dt_min / (DOUBLE) nresync;
     for (int i=0; i<nbody->Nnbody; i++) {
       nbody->nbodydata[i]->level = level_max;
       nbody->nbodydata[i]->nstep = pow(2,level_step - nbody->nbodydata[i]->level);
       nbody->nbodydata[i]->nlast = n;
-      nbody->nbodydata[i]->dt = timestep;
+      nbody->nbodydata[i]->dt = dt_min;
     }
 
   }
-- 
2.43.0


From d7385a6942818d7c69ebb7926b6023de8da61fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:39 +0000
Subject: [PATCH 65/77] fix: meshless acceleration criterion uses the current
 acceleration

---
 src/MeshlessFV/MfvIntegration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvIntegration.cpp b/src/MeshlessFV/MfvIntegration.cpp
index cc51cd1..6a8548b 100644
--- a/src/MeshlessFV/MfvIntegration.cpp
+++ b/src/MeshlessFV/MfvIntegration.cpp
@@ -14,7 +14,7 @@ DOUBLE MfvIntegration<ndim,ParticleType>::Timestep(Particle<ndim>& _part, Hydrod
 
   FLOAT dt_cfl = 2*courant_mult*part.h/part.vsig_max;
   FLOAT dt_grav = accel_mult*
-    sqrt(part.h/sqrt(DotProduct(part.a0, part.a0, ndim) + small_number));
+    sqrt(part.h/sqrt(DotProduct(part.a, part.a, ndim) + small_number));
 
  if (visc_coeff > 0) {
    FLOAT dt_visc = visc_mult * 0.5*part.h*part.h/visc_coeff;
@@ -24,7 +24,7 @@ DOUBLE MfvIntegration<ndim,ParticleType>::Timestep(Particle<ndim>& _part, Hydrod
   if (dt_cfl < 1e-10 || dt_grav < 1e-10) {
     cout << part.iorig << " " << part.ptype << " "
          << part.h << ", " << part.sound << " " << part.vsig_max
-         << ", " << DotProduct(part.a0, part.a0, ndim) << "\n";
+         << ", " << DotProduct(part.a, part.a, ndim) << "\n";
 
   }
 
-- 
2.43.0


From bd4ec288cc6887fcc0edc9e0fa7f0f2e7c64fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:52 +0000
Subject: [PATCH 66/77] fix: heating of the first guess of the drag forces is
 not counted again in the first step

---
 src/Hydrodynamics/SphSimulation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index 8812c58..d9ba09f 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -523,6 +523,7 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
     for (i=0; i<sph->Nhydro; i++) {
       SphParticle<ndim>& part = sph->GetSphParticlePointer(i);
       part.flags.set(active);
+      part.dudt0 = part.dudt;
     }
 
     // Copy properties from original particles to ghost particles
@@ -543,10 +544,11 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
   // Compute the time-averaged initial dust forces.
   if (sphdust != NULL){
 
-    // Set the acceleration to the pre-drag value
+    // Set the acceleration and heating rate to the pre-drag values
     for (i=0; i<sph->Nhydro; i++) {
       SphParticle<ndim>& part = sph->GetSphParticlePointer(i);
       for (k=0; k <ndim; k++) part.a[k] = part.a0[k] ;
+      part.dudt = part.dudt0;
     }
 
     sphdust->UpdateAllDragForces(sph) ;
-- 
2.43.0


From 7762ea89bf64177113b14d32430eea01f30d16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:52 +0000
Subject: [PATCH 67/77] fix: drag moves meshless particles with the change of
 their velocity, not of their momentum

---
 src/Common/Dust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 3f11433..97cb27d 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -126,7 +126,7 @@ void update_particle(MeshlessFVParticle<ndim>& part, FLOAT* acc, FLOAT dudt, dou
 
   // Update the particle position according to the drag terms.
   for(int k=0; k<ndim; k++) {
-    part.v[k] = part.v0[k] + part.dQ[k] + part.a0[k]*dt ;
+    part.v[k] = part.v0[k] + part.dQ[k]/part.m + part.a0[k]*dt ;
     part.r[k] = part.r0[k] + 0.5*(part.v0[k] + part.v[k])*dt;
     part.flags.set(update_density) ;
   }
-- 
2.43.0


From 29fbbf6d51dce3d620fa21e7b4e7bfa21b3872f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:11 +0000
Subject: [PATCH 68/77] fix: dead particles do not truncate the neighbour lists
 of the dust interpolation

---
 src/Common/Dust.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 97cb27d..0658098 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -510,13 +510,16 @@ void DustSphNgbFinder<ndim, ParticleType>::FindNeibAndDoInterp
 
         // Make local copies of important neib information (mass and position)
         for (jj=0; jj<Nneib; jj++) {
-          if (sphdata[j].flags.is_dead()){
-        	Nneib-- ;
-        	continue ;
-          }
-
           j        = neiblist[jj];
 
+          // Replace dead particles with the last one in the list
+          if (sphdata[j].flags.is_dead()) {
+            neiblist[jj] = neiblist[Nneib-1];
+            Nneib--;
+            jj--;
+            continue;
+          }
+
           m[jj]     = sphdata[j].m;
           ptype[jj] = sphdata[j].ptype;
           for (k=0; k<ndim; k++) pos[ndim*jj + k] = sphdata[j].r[k];
-- 
2.43.0


From 9cad5c9d5c7fce49fa8010bfbff5d722d903b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:55 +0000
Subject: [PATCH 69/77] fix: fast multipoles account for the size of the cell
 they are expanded about

---
 src/Tree/Tree.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index ca7f2d1..d665b5a 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -645,6 +645,11 @@ void Tree<ndim,ParticleType,TreeCell>::ComputeGravityInteractionAndGhostList
   const FLOAT macfactor = cell.macfactor;
   for (int k=0; k<ndim; k++) rc[k] = cell.rcell[k];
 
+  // The fast multipoles expand the field about the centre of this cell, so they also need its own
+  // size to be small compared to the distance
+  const bool fast = (multipole == "fast_monopole" || multipole == "fast_quadrupole");
+  const FLOAT cdistsqdmin = fast ? rmax*rmax/thetamaxsqd : (FLOAT) 0.0;
+
   // Start with root cell and walk through entire tree
   // Walk through all cells in tree to determine particle and cell interaction lists
   //===============================================================================================
@@ -695,7 +700,8 @@ void Tree<ndim,ParticleType,TreeCell>::ComputeGravityInteractionAndGhostList
 
     // Check if cell is far enough away to use the COM approximation
     //---------------------------------------------------------------------------------------------
-    else if (!open_cell_for_gravity(celldata[cc], drsqd, macfactor, amin)) {
+    else if (drsqd >= cdistsqdmin &&
+             !open_cell_for_gravity(celldata[cc], drsqd, macfactor, amin)) {
 
       // If cell is a leaf-cell with only one particle, more efficient to
       // compute the gravitational contribution from the particle than the cell
-- 
2.43.0


From bd6fe78e37c92ee13b1c6449d3c85ca9ba192431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:25 +0000
Subject: [PATCH 70/77] fix: parameter values that are not numbers are
 reported, recorded values keep their precision, tabs are white space

---
 src/Common/Parameters.cpp | 53 +++++++++++++++++++++++++++++++++------
 src/Common/Simulation.cpp |  4 +--
 src/Headers/Parameters.h  |  2 ++
 3 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index df7c847..2b00628 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -22,7 +22,9 @@
 //=================================================================================================
 
 
+#include <cctype>
 #include <cstdio>
+#include <cstdlib>
 #include <iostream>
 #include <fstream>
 #include <sstream>
@@ -557,9 +559,7 @@ string Parameters::GetParameter
     return value.str();
   }
   else if (floatparams.count(key) == 1) {
-    std::stringstream value;
-    value << floatparams[key];
-    return value.str();
+    return FloatToString(floatparams[key]);
   }
   else if (stringparams.count(key) == 1) {
     return stringparams[key];
@@ -584,10 +584,14 @@ void Parameters::SetParameter
   string value)                        ///< [in] Parameter value if key found
 {
   if (intparams.count(key) == 1) {
-    std::stringstream(value) >> intparams[key];
+    int intvalue;
+    if (!(std::stringstream(value) >> intvalue)) InvalidValue(key, value);
+    intparams[key] = intvalue;
   }
   else if (floatparams.count(key) == 1) {
-    std::stringstream(value) >> floatparams[key];
+    double floatvalue;
+    if (!(std::stringstream(value) >> floatvalue)) InvalidValue(key, value);
+    floatparams[key] = floatvalue;
   }
   else if (stringparams.count(key) == 1) {
     stringparams[key] = value;
@@ -601,6 +605,41 @@ void Parameters::SetParameter
 
 
 
+//=================================================================================================
+//  Parameters::InvalidValue
+/// Raises an error for a value that cannot be read as a number.
+//=================================================================================================
+void Parameters::InvalidValue
+ (const string& key,                   ///< [in] Parameter key
+  const string& value)                 ///< [in] Value given for the parameter
+{
+  string message = "Error: the parameter " + key + " needs a number, but has the value '" + value + "'";
+  ExceptionHandler::getIstance().raise(message);
+}
+
+
+
+//=================================================================================================
+//  Parameters::FloatToString
+/// Shortest string (of at least the default precision) that gives the same number when read again.
+//=================================================================================================
+string Parameters::FloatToString
+ (const double value)                  ///< [in] Value to convert
+{
+  for (int precision=6; precision<17; precision++) {
+    std::ostringstream outstr;
+    outstr.precision(precision);
+    outstr << value;
+    if (strtod(outstr.str().c_str(), NULL) == value) return outstr.str();
+  }
+  std::ostringstream outstr;
+  outstr.precision(17);
+  outstr << value;
+  return outstr.str();
+}
+
+
+
 //=================================================================================================
 //  Parameters::PrintParameters
 /// Prints all parameters stored in memory to screen.
@@ -654,7 +693,7 @@ void Parameters::RecordParametersToFile(void)
   // Write all float parameters
   std::map <std::string, double>::iterator it2;
   for (it2=floatparams.begin(); it2 != floatparams.end(); ++it2) {
-    outfile << it2->first << " = " << it2->second << endl;
+    outfile << it2->first << " = " << FloatToString(it2->second) << endl;
   }
 
   // Write all string parameters
@@ -681,7 +720,7 @@ std::string Parameters::TrimWhiteSpace
 
   // Loop over all characters and ignore any white-space characters
   for (unsigned int i=0; i<instr.length(); i++) {
-    if (instr[i] != ' ') outstr += instr[i];
+    if (!isspace((unsigned char) instr[i])) outstr += instr[i];
   }
 
   return outstr;
diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 5d9d396..aa32b99 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -332,9 +332,7 @@ void SimulationBase::SetParam
  (string key,                          ///< [in] Parameter string name
   double value)                        ///< [in] Parameter float (double) value
 {
-  ostringstream convert;
-  convert << value;
-  SetParam (key, convert.str());
+  SetParam (key, Parameters::FloatToString(value));
 }
 
 
diff --git a/src/Headers/Parameters.h b/src/Headers/Parameters.h
index 15e3133..5e6b32d 100644
--- a/src/Headers/Parameters.h
+++ b/src/Headers/Parameters.h
@@ -59,6 +59,8 @@ class Parameters
   void PrintParameters(void);
   void RecordParametersToFile(void);
   std::string TrimWhiteSpace(std::string);
+  static void InvalidValue(const std::string&, const std::string&);
+  static std::string FloatToString(const double);
 
   // Maps containing parameters for all available data types
   //---------------------------------------------------------------------------
-- 
2.43.0


From 6254f90c9c3cd8707557d1d027822ceeeca5af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:50 +0000
Subject: [PATCH 71/77] fix: unknown multipole, time_dependent_avisc and
 time_step_limiter options are reported

---
 src/GradhSph/GradhSphSimulation.cpp | 2 +-
 src/Headers/Tree.h                  | 5 +++++
 src/MeshlessFV/MeshlessFV.cpp       | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSphSimulation.cpp b/src/GradhSph/GradhSphSimulation.cpp
index 77af3ce..8b804ac 100644
--- a/src/GradhSph/GradhSphSimulation.cpp
+++ b/src/GradhSph/GradhSphSimulation.cpp
@@ -81,7 +81,7 @@ void GradhSphSimulation<ndim>::ProcessSphParameters(void)
     avisc = mon97cd2010;
     tdavisc = cd2010;
   }
-  else if (stringparams["avisc"] == "mon97") {
+  else if (stringparams["avisc"] == "mon97" && stringparams["time_dependent_avisc"] == "none") {
     avisc = mon97;
     tdavisc = notdav;
   }
diff --git a/src/Headers/Tree.h b/src/Headers/Tree.h
index 0c94372..0343d7a 100644
--- a/src/Headers/Tree.h
+++ b/src/Headers/Tree.h
@@ -248,6 +248,11 @@ protected:
       else if (_gravity_mac != "geometric")
         ExceptionHandler::getIstance().raise
         ("Error: gravity_mac type, " + _gravity_mac + ", not recognised");
+
+      if (_multipole != "monopole" && _multipole != "quadrupole" &&
+          _multipole != "fast_monopole" && _multipole != "fast_quadrupole")
+        ExceptionHandler::getIstance().raise
+        ("Error: multipole type, " + _multipole + ", not recognised");
     };
 
   virtual ~Tree() { } ;
diff --git a/src/MeshlessFV/MeshlessFV.cpp b/src/MeshlessFV/MeshlessFV.cpp
index 218dafc..bbb78d6 100644
--- a/src/MeshlessFV/MeshlessFV.cpp
+++ b/src/MeshlessFV/MeshlessFV.cpp
@@ -68,6 +68,11 @@ MeshlessFV<ndim>::MeshlessFV(int _hydro_forces, int _self_gravity, FLOAT _accel_
   msink_fixed     = floatparams["m1"];
 
   timestep_limiter = stringparams["time_step_limiter"] ;
+  if (timestep_limiter != "none" && timestep_limiter != "simple" &&
+      timestep_limiter != "conservative") {
+    string message = "Unrecognised parameter : time_step_limiter = " + timestep_limiter;
+    ExceptionHandler::getIstance().raise(message);
+  }
 
   hmin_sink = big_number;
 
-- 
2.43.0


From 67efb725b7a8ebef6c78d5af6e54935dbfe494ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:47 +0000
Subject: [PATCH 72/77] fix: parameters read by the SILCC supernova driver, the
 rotating isothermal sphere and the dust are known to the parameter file
 reader

---
 src/Common/Dust.cpp       | 2 +-
 src/Common/Parameters.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 0658098..d0ad23f 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -1190,7 +1190,7 @@ DustBase<ndim>* ProcessParameters(Parameters* simparams, ParticleTypeRegister& t
 	  typedef DustFull<ndim, ParticleType, StoppingTime, Kernel> dust ;
 
 	  StoppingTime t_s(K_D) ; Kernel kern(KernelName) ;
-	  bool IntegrateEnergy = stringparams["eos"] != "isothermal" ;
+	  bool IntegrateEnergy = stringparams["gas_eos"] != "isothermal" ;
 
 	  typename dust::DF Forces(t_s, kern, IntegrateEnergy) ;
 	  DustSphNgbFinder<ndim, ParticleType>* d =  new dust(simparams, Forces, types, t, ghost) ;
diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index 2b00628..cdfd1b4 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -433,6 +433,7 @@ void Parameters::SetDefaultValues(void)
   floatparams["kefrac"] = 0.0;
   floatparams["radius"] = 1.0;
   floatparams["angvel"] = 0.0;
+  floatparams["omega"] = 0.0;
   floatparams["mcloud"] = 1.0;
   floatparams["mplummer"] = 1.0;
   floatparams["rplummer"] = 1.0;
@@ -523,6 +524,10 @@ void Parameters::SetDefaultValues(void)
   // Supernova feedback parameters
   //-----------------------------------------------------------------------------------------------
   stringparams["supernova_feedback"] = "none";
+  stringparams["SNfile_name"] = "";
+  floatparams["Minj"] = 0.0;
+  floatparams["Rinj"] = 0.0;
+  floatparams["R_therm_kin"] = 0.0;
 
   // Radiative feedback parameters
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From 603b78ecf16001f2935e3bd1a598f5ca36771a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:39 +0000
Subject: [PATCH 73/77] fix: parameter file lines without an equals sign are
 skipped, as documented

---
 src/Common/Parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index cdfd1b4..63f5503 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -141,7 +141,7 @@ void Parameters::ParseLine
 
   // If line is not in the correct format (either equals is not present,
   // or equals is before the colon) then skip line and return.
-  if (equal_pos >= length || (colon_pos < length && colon_pos > equal_pos)) return;
+  if (equal_pos < 0 || colon_pos > equal_pos) return;
 
   // Extract variable name and value from line
   std::string var_name = paramline.substr(colon_pos+1, equal_pos-colon_pos-1);
-- 
2.43.0


From 595daadee826213ca871bba76ab3a218e9e81d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:20 +0000
Subject: [PATCH 74/77] fix: the mean particle mass of a simulation without gas
 is defined (it is written to the snapshots)

---
 src/Hydrodynamics/Hydrodynamics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hydrodynamics/Hydrodynamics.cpp b/src/Hydrodynamics/Hydrodynamics.cpp
index 667e286..e07594c 100644
--- a/src/Hydrodynamics/Hydrodynamics.cpp
+++ b/src/Hydrodynamics/Hydrodynamics.cpp
@@ -72,6 +72,7 @@ Hydrodynamics<ndim>::Hydrodynamics(int hydro_forces_aux, int self_gravity_aux, F
   NImportedParticles = 0;
   Nmpighost          = 0;
   NPeriodicGhost     = 0;
+  mmean              = (FLOAT) 0.0;
   rho_sink           = params->floatparams["rho_sink"]/(units.rho.outscale*units.rho.outcgs);
   create_sinks       = params->intparams["create_sinks"];
   sink_particles     = params->intparams["sink_particles"];
-- 
2.43.0


From 91ca22ee3b99d851c4cb37b28cafcf6487c803dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:20 +0000
Subject: [PATCH 75/77] fix: no reference to the first element of an empty list
 of gravity cells

---
 src/Headers/NeighbourManagerBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/NeighbourManagerBase.h b/src/Headers/NeighbourManagerBase.h
index e40aa66..cf9853c 100644
--- a/src/Headers/NeighbourManagerBase.h
+++ b/src/Headers/NeighbourManagerBase.h
@@ -72,7 +72,7 @@ public:
 	/// \brief Get the number of multipole moments stored, and return a pointer to them.
 	//===============================================================================================
 	int GetGravCell (MultipoleMoment<ndim>** gravcell_p) {
-	  *gravcell_p = &gravcell[0];
+	  *gravcell_p = gravcell.empty() ? NULL : &gravcell[0];
 	  return gravcell.size();
 	}
 
-- 
2.43.0


From 00a0e1b83f4e575a2dc8ae034735c31384e03534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:49 +0000
Subject: [PATCH 76/77] fix: external potentials use their documented
 parameters, units and the box of the simulation; the vertical potential
 counts fully in the energy

---
 src/Common/Simulation.cpp       | 12 ++++++++++--
 src/Headers/ExternalPotential.h |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index aa32b99..b5b25c1 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1163,11 +1163,19 @@ void Simulation<ndim>::ProcessParameters(void)
     extpot = new NullPotential<ndim>();
   }
   else if (stringparams["external_potential"] == "vertical") {
+    const int kgrav = intparams["kgrav"];
+    if (kgrav < 0 || kgrav >= ndim) {
+      string message = "Invalid value of kgrav : must be a dimension of the simulation";
+      ExceptionHandler::getIstance().raise(message);
+    }
+    const string boxmin[3] = {"boxmin[0]", "boxmin[1]", "boxmin[2]"};
     extpot = new VerticalPotential<ndim>
-      (intparams["kgrav"], floatparams["avert"], simbox.min[intparams["kgrav"]]);
+      (kgrav, floatparams["avert"]/simunits.a.outscale,
+       floatparams[boxmin[kgrav]]/simunits.r.outscale);
   }
   else if (stringparams["external_potential"] == "plummer") {
-    extpot = new PlummerPotential<ndim>(floatparams["mplummer"], floatparams["rplummer"]);
+    extpot = new PlummerPotential<ndim>(floatparams["mplummer_extpot"]/simunits.m.outscale,
+                                        floatparams["rplummer_extpot"]/simunits.r.outscale);
   }
   else if (stringparams["external_potential"] == "silcc") {
     extpot = new SilccPotential<ndim>(floatparams["sigma_star"], floatparams["z_d"], simunits);
diff --git a/src/Headers/ExternalPotential.h b/src/Headers/ExternalPotential.h
index d0a5e13..a1a74b8 100644
--- a/src/Headers/ExternalPotential.h
+++ b/src/Headers/ExternalPotential.h
@@ -106,7 +106,7 @@ public:
   {
     ap[kgrav]    += avert;
     adotp[kgrav] += (FLOAT) 0.0;
-    potp         += (rp[kgrav] - rzero)*avert;
+    potp         += (FLOAT) 2.0*(rp[kgrav] - rzero)*avert;
 
     return;
   }
-- 
2.43.0


From da76bddb8fc330425938c148aa4df6b631ed95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:52 +0000
Subject: [PATCH 77/77] fix: initialise the radius of star particles, which is
 written to every snapshot

---
 src/Headers/NbodyParticle.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Headers/NbodyParticle.h b/src/Headers/NbodyParticle.h
index aadd51d..062759d 100644
--- a/src/Headers/NbodyParticle.h
+++ b/src/Headers/NbodyParticle.h
@@ -101,6 +101,7 @@ class NbodyParticle
     m            = 0;
     h            = 0;
     invh         = (FLOAT) 0.0;
+    radius       = (FLOAT) 0.0;
     //hfactor      = (FLOAT) 0.0;
     gpot         = (FLOAT) 0.0;
     gpe          = (FLOAT) 0.0;
-- 
2.43.0

