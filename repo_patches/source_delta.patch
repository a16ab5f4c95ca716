From eabf8cea6d14e6a58cd0d2273d4863005872da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 01/49] fix: density derivative of the normal speed in the
 exact LLF Jacobian

---
 src/spatial/anumericalflux.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spatial/anumericalflux.cpp b/src/spatial/anumericalflux.cpp
index 834f93c..3249368 100644
--- a/src/spatial/anumericalflux.cpp
+++ b/src/spatial/anumericalflux.cpp
@@ -145,7 +145,7 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 	j_real dedu[NVARS];
 
 	if(leftismax) {
-		dedu[0] = -fabs(vni/(ul[0]*ul[0])) + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
+		dedu[0] = -fabs(vni/ul[0]) + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
 				+ (ul[1]*ul[1]+ul[2]*ul[2])/(ul[0]*ul[0]*ul[0]) );
 		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/ul[0]);
 		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/ul[0]);
@@ -168,7 +168,7 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 		for(int i = 0; i < NVARS; i++)
 			dedu[i] = 0;
 	} else {
-		dedu[0] = -fabs(vnj/(ur[0]*ur[0])) + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
+		dedu[0] = -fabs(vnj/ur[0]) + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
 				+ (ur[1]*ur[1]+ur[2]*ur[2])/(ur[0]*ur[0]*ur[0]) );
 		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/ur[0]);
 		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/ur[0]);
-- 
2.43.0


From ebd4d532f60b134d74602abf2b9d7f283450a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 02/49] fix: subsonic inflow uses the outgoing Riemann
 invariant and points into the domain

---
 src/spatial/abc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 1a43313..7687401 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -154,7 +154,7 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 {
 	const scalar ci = phy.getSoundSpeedFromConserved(ins);
 	// Outgoing Riemann invariant
-	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - ci/(2*phy.g - 1.0);
+	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - 2*ci/(phy.g - 1.0);
 	// Square of stagnation speed of sound
 	const scalar co2 = ci*ci + (phy.g-1.0)/2.0 * dimDotProduct(&ins[1],&ins[1])/(ins[0]*ins[0]);
 
@@ -171,7 +171,7 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 	scalar vg[NDIM];
 	getComponentsCartesian<scalar>(vgmag, n, vg);
 	for(int i = 0; i < NDIM; i++)
-		gs[i+1] = gs[0]*vg[i];
+		gs[i+1] = -gs[0]*vg[i];
 	gs[NDIM+1] = phy.getEnergyFromPressure(pg,gs[0],vgmag*vgmag);
 }
 
-- 
2.43.0


From 7c598776dda2ff9cb215b87ed0f8518b6ea8ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 03/49] fix: adiabatic wall reads the right components of the
 wall velocity

---
 src/spatial/abc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 7687401..e208e06 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -316,7 +316,7 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
 {
 	gs[0] = ins[0];
 	for(int i= 1; i< NDIM+1; i++)
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 	gs[NDIM+1] = ins[NDIM+1];
 }
 
@@ -333,9 +333,9 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 	dgs[0] = 1.0;
 
 	for(int i= 1; i< NDIM+1; i++) {
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 
-		dgs[i*NVARS+0] = 2.0*wallvel[i];
+		dgs[i*NVARS+0] = 2.0*wallvel[i-1];
 		dgs[i*NVARS+i] = -1.0;
 	}
 
-- 
2.43.0


From ece53b3e2c677e3d5f66ef303654c27f43374eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 04/49] fix: moving adiabatic wall keeps the pressure and
 temperature equal on both sides

---
 src/spatial/abc.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index e208e06..82eb483 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -276,7 +276,8 @@ void Adiabaticwall2D<scalar,j_real>::computeGhostState(const scalar *const ins,
 	gs[0] = ins[0];
 	gs[1] =  2.0*tangMomentum*n[1] - ins[1];
 	gs[2] = -2.0*tangMomentum*n[0] - ins[2];
-	gs[3] = ins[3];
+	// same pressure as the interior
+	gs[3] = ins[3] + 0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/ins[0];
 }
 
 template <typename scalar, typename j_real>
@@ -300,7 +301,11 @@ void Adiabaticwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real *
 	dgs[2*NVARS+0] = -2.0*tangvel*n[0];
 	dgs[2*NVARS+2] = -1.0;
 
-	gs[3] = ins[3];
+	const j_real dke = 0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/ins[0];
+	gs[3] = ins[3] + dke;
+	dgs[3*NVARS+0] = (gs[1]*dgs[NVARS+0] + gs[2]*dgs[2*NVARS+0] - dke)/ins[0];
+	for(int j = 1; j < NDIM+1; j++)
+		dgs[3*NVARS+j] = -(gs[j]+ins[j])/ins[0];
 	dgs[3*NVARS+3] = 1.0;
 }
 
@@ -317,7 +322,9 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
 	gs[0] = ins[0];
 	for(int i= 1; i< NDIM+1; i++)
 		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
-	gs[NDIM+1] = ins[NDIM+1];
+	// same pressure as the interior
+	gs[NDIM+1] = ins[NDIM+1]
+		+ 0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/ins[0];
 }
 
 template <typename scalar, typename j_real>
@@ -339,8 +346,15 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 		dgs[i*NVARS+i] = -1.0;
 	}
 
-	gs[NVARS-1] = ins[NVARS-1];
-	dgs[NVARS*NVARS-1] = 1.0;
+	const j_real dke = 0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/ins[0];
+	gs[NVARS-1] = ins[NVARS-1] + dke;
+	j_real *const dge = &dgs[(NVARS-1)*NVARS];
+	dge[0] = -dke/ins[0];
+	for(int i= 1; i< NDIM+1; i++) {
+		dge[0] += gs[i]*dgs[i*NVARS+0]/ins[0];
+		dge[i] = -(gs[i]+ins[i])/ins[0];
+	}
+	dge[NVARS-1] = 1.0;
 }
 
 template <typename scalar, typename j_real>
-- 
2.43.0


From 7ab97273506bf512028e90fed264ba367cb1bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 05/49] fix: isothermal wall ghost energy and Jacobian agree
 with the ghost state

---
 src/spatial/abc.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 82eb483..06bf3c0 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -391,8 +391,6 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	for(int k = 0; k < NVARS*NVARS; k++)
 		dgs[k] = 0;
 
-	/// \todo Fix isothermal BC Jacobian
-	// FIXME: Wrong Jacobian
 	const j_real tangMomentum = tangvel * ins[0];
 	gs[0] = ins[0];
 	dgs[0] = 1.0;
@@ -406,19 +404,22 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	dgs[2*NVARS+2] = -1.0;
 
 	const j_real vmag2 = dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]);
-	gs[3] = jphy.getEnergyFromTemperature(walltemperature, ins[0], vmag2);
+	const j_real gtemp = 2.0*walltemperature - jphy.getTemperatureFromConserved(ins);
+	gs[3] = jphy.getEnergyFromTemperature(gtemp, ins[0], vmag2);
 
 	j_real dvmag2[NVARS]; // derivative of vmag2 w.r.t. ins
-	dvmag2[0] = -2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0]);
+	dvmag2[0] = 2.0*(gs[1]*dgs[NVARS+0]+gs[2]*dgs[2*NVARS+0])/(ins[0]*ins[0]) - 2.0*vmag2/ins[0];
 	for(int i = 1; i < NDIM+1; i++)
-		dvmag2[i] = 1.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
+		dvmag2[i] = -2.0*gs[i]/(ins[0]*ins[0]);
 	dvmag2[NDIM+1] = 0;
 
-	// dummy dT for the next function call
+	// derivative of the ghost temperature
 	j_real dT[NVARS];
 	for(int i = 0; i < NVARS; i++) dT[i] = 0;
+	jphy.getJacobianTemperatureWrtConserved(ins, dT);
+	for(int i = 0; i < NVARS; i++) dT[i] = -dT[i];
 
-	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(walltemperature, ins[0], vmag2,
+	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(gtemp, ins[0], vmag2,
 	                                                    dT, dvmag2, &dgs[3*NVARS]);
 }
 
-- 
2.43.0


From 8252581ff26478b1e9927a2669e2da33d4f298cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 06/49] fix: isothermal wall temperature is given in Kelvin,
 the boundary condition takes it non-dimensional

---
 src/spatial/abc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 06bf3c0..67a20a8 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -503,7 +503,7 @@ std::map<int,const FlowBC<scalar>*> create_const_flowBCs(const std::vector<FlowB
 			break;
 		case ISOTHERMAL_WALL_BC:
 			bc = new Isothermalwall2D<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0],
-			                                  itbc->bc_vals[1]);
+			                                  itbc->bc_vals[1]/physics.Tinf);
 			break;
 		default:
 			throw std::runtime_error("BC type not implemented yet!");
-- 
2.43.0


From cd67ea6bde58c2c03c938ae5bfa5020b7fe81a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 07/49] fix: momentum derivatives of the sound speed in the
 exact LLF Jacobian

---
 src/spatial/anumericalflux.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spatial/anumericalflux.cpp b/src/spatial/anumericalflux.cpp
index 3249368..1f7cf06 100644
--- a/src/spatial/anumericalflux.cpp
+++ b/src/spatial/anumericalflux.cpp
@@ -147,8 +147,8 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 	if(leftismax) {
 		dedu[0] = -fabs(vni/ul[0]) + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
 				+ (ul[1]*ul[1]+ul[2]*ul[2])/(ul[0]*ul[0]*ul[0]) );
-		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/ul[0]);
-		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/ul[0]);
+		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/(ul[0]*ul[0]));
+		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/(ul[0]*ul[0]));
 		dedu[3] = ctermi*g*(g-1)/ul[0];
 	}
 	else {
@@ -170,8 +170,8 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 	} else {
 		dedu[0] = -fabs(vnj/ur[0]) + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
 				+ (ur[1]*ur[1]+ur[2]*ur[2])/(ur[0]*ur[0]*ur[0]) );
-		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/ur[0]);
-		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/ur[0]);
+		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/(ur[0]*ur[0]));
+		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/(ur[0]*ur[0]));
 		dedu[3] = ctermj*g*(g-1)/ur[0];
 	}
 
-- 
2.43.0


From 3268e7dabb9ffdee07ed9c20133cd1264e8dbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 08/49] fix: subsonic inflow imposes the given total
 temperature

---
 src/spatial/abc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 67a20a8..5550025 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -165,7 +165,7 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 	const scalar tg = ttotal*cg*cg/co2;
 	const scalar pg = ptotal * pow(tg/ttotal, phy.g/(phy.g-1.0));
 	gs[0] = phy.getDensityFromPressureTemperature(pg,tg);
-	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*(co2 - cg*cg));
+	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*(ttotal - tg))/phy.Minf;
 
 	// Get velocity components of ghost state assuming it's (anti-)parallel to the face normal
 	scalar vg[NDIM];
-- 
2.43.0


From bee769ae3b64d5e32f472f412be7ded9fb23789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 09/49] fix: ghost cell centre of the right boundary face in
 the viscous flux Jacobian

---
 src/spatial/flow_spatial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index c06719d..95c5457 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -433,7 +433,7 @@ void FlowFV<scalar,secondOrder,constVisc>
 	const fint relem = m->gintfac(iface,1);
 
 	if(iface >= m->gPhyBFaceStart() && iface < m->gPhyBFaceEnd())
-		getFaceGradientAndJacobian_thinLayer(&rc(lelem,0), &rcbp(iface-m->gPhyBFaceStart()),
+		getFaceGradientAndJacobian_thinLayer(&rc(lelem,0), &rcbp(iface-m->gPhyBFaceStart(),0),
 		                                     upl, upr, dupl, dupr, grad,
 		                                     dgradl, dgradr);
 	else
-- 
2.43.0


From 80d0d0cc1750d159631341361b098d96549895ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 10/49] fix: Barth-Jespersen and Venkatakrishnan limiters use
 boundary ghost values instead of reading past the cell array

---
 src/spatial/limitedlinearreconstruction.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spatial/limitedlinearreconstruction.cpp b/src/spatial/limitedlinearreconstruction.cpp
index 4960f24..e3e9b34 100644
--- a/src/spatial/limitedlinearreconstruction.cpp
+++ b/src/spatial/limitedlinearreconstruction.cpp
@@ -132,7 +132,10 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost cells come after the connectivity ghost cells
+				const fint ibface = jel - (m->gnelem()+m->gnConnFace());
+				const scalar uj = ibface >= 0 ? ug(ibface,ivar) : u(jel,ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
@@ -227,7 +230,10 @@ void VenkatakrishnanLimiter<scalar,nvars>
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost cells come after the connectivity ghost cells
+				const fint ibface = jel - (m->gnelem()+m->gnConnFace());
+				const scalar uj = ibface >= 0 ? ug(ibface,ivar) : u(jel,ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
-- 
2.43.0


From 8826fa6321bfc616a8d44f67b6c4e4d8ab6f69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 11/49] fix: faces between subdomains whose points all lie on
 physical boundaries are connectivity faces

---
 src/mesh/meshpartitioning.cpp | 51 +++++++----------------------------
 src/mesh/meshpartitioning.hpp | 12 +--------
 2 files changed, 11 insertions(+), 52 deletions(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 2ff91f2..d530384 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -73,20 +73,17 @@ UMesh<freal,2> ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions() const
 	 */
 	extractbfaces(pointGlob2Loc, lm);
 
-	/*! 5. Compute local esuel and mark elements that neighbor and points that lie on
-	 *     a physical boundary face
+	/*! 5. Compute local esuel
 	 */
 	lm.compute_elementsSurroundingPoints();
 	lm.compute_elementsSurroundingElements();
-	const std::vector<bool> isPhyBounPoint = markLocalPhysicalBoundaryPoints(lm);
-	assert(isPhyBounPoint.size() == static_cast<size_t>(lm.npoin));
 
 	/*! 6. Use local esuel, the global esuel and local-to-global elem map 
 	 *     to build the connectivity face structure. Use the fact that ordering of faces within
 	 *     elements is not changed during restriction to assign global face indices.
 	 */
 	const std::vector<std::vector<EIndex>> connElemLocalFace
-		= getConnectivityFaceEIndices(lm, isPhyBounPoint);
+		= getConnectivityFaceEIndices(lm);
 
 	lm.nconnface = 0;
 	for(fint i = 0; i < lm.nelem; i++)
@@ -275,25 +272,9 @@ void ReplicatedGlobalMeshPartitioner::extractbfaces(const std::map<fint,fint>& p
 			lm.bface(iface,j) = tbfaces[iface][j];
 }
 
-std::vector<bool>
-ReplicatedGlobalMeshPartitioner::
-markLocalPhysicalBoundaryPoints(const UMesh<freal,2>& lm) const
-{
-	std::vector<bool> isBounPoin(lm.npoin,false);
-
-	for(fint iface = 0; iface < lm.nbface; iface++)
-	{
-		for(int inode = 0; inode < lm.nnofa; inode++) {
-			isBounPoin[lm.bface(iface,inode)] = true;
-		}
-	}
-	return isBounPoin;
-}
-
 std::vector<std::vector<EIndex>>
 ReplicatedGlobalMeshPartitioner::
-getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
-                            const std::vector<bool>& isPhyBounPoint) const
+getConnectivityFaceEIndices(const UMesh<freal,2>& lm) const
 {
 	const int rank = get_mpi_rank(MPI_COMM_WORLD);
 
@@ -303,27 +284,15 @@ getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
 
 	for(fint iel = 0; iel < lm.nelem; iel++)
 	{
-		// Check whether face points are physical boundary points to identify connectivity faces
+		/* A face without a neighbor in this subdomain is a connectivity face if it has a neighbor in the
+		 * global mesh. Note that its points may all be physical boundary points. Faces are ordered
+		 * within an element the same way in the global mesh and in the subdomain.
+		 */
 		for(EIndex iface = 0; iface < lm.nfael[iel]; iface++)
 		{
-			if(lm.esuel(iel,iface) == -1)
-			{
-				bool isconnface = false;
-				/* Get subdomain index of the points on this face.
-				 * If at least one point is not on a physical boundary, this is a connectivity face.
-				 */
-				for(FIndex inode = 0; inode < lm.nnofa; inode++)
-				{
-					const fint locpoint = lm.inpoel(iel,lm.getNodeEIndex(iel,iface,inode));
-					if(!isPhyBounPoint[locpoint]) {
-						isconnface = true;
-						break;
-					}
-				}
-				if(isconnface) {
-					connElemLocalFace[iel].push_back(iface);
-				}
-			}
+			const fint globneighbor = gm.esuel(lm.globalElemIndex[iel],iface);
+			if(lm.esuel(iel,iface) == -1 && globneighbor >= 0 && globneighbor < gm.nelem)
+				connElemLocalFace[iel].push_back(iface);
 		}
 	}
 	std::cout << "Rank " << rank << ": computed connElemLocalFace" << std::endl;
diff --git a/src/mesh/meshpartitioning.hpp b/src/mesh/meshpartitioning.hpp
index 999c42d..d519783 100644
--- a/src/mesh/meshpartitioning.hpp
+++ b/src/mesh/meshpartitioning.hpp
@@ -59,20 +59,10 @@ protected:
 	 */
 	void extractbfaces(const std::map<fint,fint>& pointGlobal2Local, UMesh<freal,NDIM>& lm) const;
 
-	/// Marks points of this subdomain which are adjacent to physical boundary faces
-	/** As a by-product, also computes the number of physical boundary points in the local mesh in
-	 * nbpoin.
-	 * \return The vector of point marks
-	 */
-	std::vector<bool> markLocalPhysicalBoundaryPoints(const UMesh<freal,NDIM>& lm) const;
-
 	/// Returns a list of containing, for each local element, face E-indices that are connectivity
 	///  faces, if any
-	/** \param[in] isPhyBounPoint For each local point, whether or not it lies on a physical boundary
-	 */
 	std::vector<std::vector<EIndex>>
-	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm,
-	                            const std::vector<bool>& isPhyBounPoint) const;
+	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm) const;
 
 	/// The global mesh to partition
 	const UMesh<freal,NDIM>& gm;
-- 
2.43.0


From c7c1ffa2e58d4493b0d25dfe6ece9469fa5c67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 12/49] fix: Green-Gauss gradient updates at boundary and
 connectivity faces race between threads

---
 src/spatial/agradientschemes.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/spatial/agradientschemes.cpp b/src/spatial/agradientschemes.cpp
index 8127070..5f4b3ee 100644
--- a/src/spatial/agradientschemes.cpp
+++ b/src/spatial/agradientschemes.cpp
@@ -113,6 +113,11 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 					* m->gfacemetric(iface,2);
 
 				for(int idim = 0; idim < NDIM; idim++)
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
 			}
 		}
@@ -206,6 +211,11 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 
 				for(int idim = 0; idim < NDIM; idim++)
 				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
 				}
 			}
-- 
2.43.0


From db4034073acf4c5a8559969f285005c37119b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 13/49] fix: waiting for shared face sends does not index an
 empty request array in one-process runs

---
 src/linalg/tracevector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/tracevector.cpp b/src/linalg/tracevector.cpp
index da65431..0ee8485 100644
--- a/src/linalg/tracevector.cpp
+++ b/src/linalg/tracevector.cpp
@@ -285,7 +285,7 @@ void L2TraceVector<scalar,nvars>::updateSharedFacesEnd()
 
 	//std::cout << "Rank " << mpirank << ": receives posted." << std::endl;
 
-	MPI_Waitall(nbdranks.size(), &srequests[0], MPI_STATUS_IGNORE);
+	MPI_Waitall(nbdranks.size(), srequests.data(), MPI_STATUSES_IGNORE);
 	// for(size_t irank = 0; irank < nbdranks.size(); irank++)
 	// 	MPI_Wait(&srequests[irank], MPI_STATUS_IGNORE);
 	//std::cout << "Rank = " << mpirank << ": all sends completed." << std::endl;
-- 
2.43.0


From a97deb4e2a7ea86b229113f20981e3f22d5d60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 14/49] fix: first-order viscous fluxes do not refer to cells
 of a non-existent gradient array

---
 src/spatial/flow_spatial.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index 95c5457..c6a3cf8 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -495,6 +495,7 @@ void FlowFV<scalar,secondOrderRequested,constVisc>
 	const amat::Array2dView<freal> rc(rch.getArray(), m->gnelem()+m->gnConnFace(), NDIM);
 	const GradBlock_t<scalar,NDIM,NVARS> *const grads
 		= reinterpret_cast<const GradBlock_t<scalar,NDIM,NVARS>*>(gradients);
+	const GradBlock_t<scalar,NDIM,NVARS> zerograd = GradBlock_t<scalar,NDIM,NVARS>::Zero();
 
 	/* Note that we don't need access to residuals of connectivity ghost cells. Each subdomain is
 	 * responsible only for residuals in its own cells while fluxes across connectivity faces are
@@ -537,11 +538,14 @@ void FlowFV<scalar,secondOrderRequested,constVisc>
 			const scalar *const rcr = isPhyBoun ? &rcbp(ibpface,0) : &rc(relem,0);
 			const scalar *const ucellright
 				= isPhyBoun ? &ug[ibpface*NVARS] : &u[relem*NVARS];
-			const GradBlock_t<scalar,NDIM,NVARS>& gradright = isPhyBoun ? grads[lelem] : grads[relem];
+			// the first-order scheme has no gradients
+			const GradBlock_t<scalar,NDIM,NVARS>& gradleft = secondOrderRequested ? grads[lelem] : zerograd;
+			const GradBlock_t<scalar,NDIM,NVARS>& gradright
+				= secondOrderRequested && !isPhyBoun ? grads[relem] : gradleft;
 
 			scalar vflux[NVARS];
 			compute_viscous_flux(&n[0], &rc(lelem,0), rcr,
-			                     &u[lelem*NVARS], ucellright, grads[lelem], gradright,
+			                     &u[lelem*NVARS], ucellright, gradleft, gradright,
 			                     &uleft[ied*NVARS], &uright[ied*NVARS], vflux);
 
 			for(int ivar = 0; ivar < NVARS; ivar++)
-- 
2.43.0


From 99fedd37709bed64ec89ec45505e1a737759c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 15/49] fix: all-reduce calls do not pass the same buffer for
 sending and receiving

---
 src/ode/aodesolver.cpp     | 2 +-
 src/utilities/mpiutils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 9850248..ef8e657 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -525,7 +525,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 			}
 		}
 
-		MPI_Allreduce(&resnorm2, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
+		MPI_Allreduce(MPI_IN_PLACE, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
 		resiold = resi;
 		resi = sqrt(resnorm2);
 
diff --git a/src/utilities/mpiutils.cpp b/src/utilities/mpiutils.cpp
index 8b4f7ad..33bdc84 100644
--- a/src/utilities/mpiutils.cpp
+++ b/src/utilities/mpiutils.cpp
@@ -14,7 +14,7 @@ namespace fvens {
 template <>
 void mpi_all_reduce(freal *const arr, const fint count, MPI_Op op, MPI_Comm comm)
 {
-	MPI_Allreduce(arr, arr, count, FVENS_MPI_REAL, op, comm);
+	MPI_Allreduce(MPI_IN_PLACE, arr, count, FVENS_MPI_REAL, op, comm);
 }
 
 void wait_for_debugger()
-- 
2.43.0


From d27db5bffd89384169f5c5d9ba47b0120834b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 16/49] fix: convergence in the last allowed pseudo-time step
 is not reported as a failure

---
 src/ode/aodesolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index ef8e657..0adf63b 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -260,7 +260,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 		writeStepToConvergenceHistory(convstep, std::cout);
 
 	tdata.converged = true;
-	if(step == config.maxiter) {
+	if(resi/initres > config.tol) {
 		tdata.converged = false;
 		if(mpirank == 0)
 			std::cout << "! SteadyForwardEulerSolver: solve(): Exceeded max iterations!\n";
@@ -616,7 +616,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	tdata.lin_cputime = linctime;
 
 	tdata.converged = false;
-	if(step < config.maxiter && (resi/initres <= config.tol))
+	if(resi/initres <= config.tol)
 		tdata.converged = true;
 	else if (step >= config.maxiter){
 		if(mpirank == 0) {
-- 
2.43.0


From a5264e6445b8f678f0eddc3301ca0bfb9f979953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 17/49] fix: the explicit steady solver records the CFL number
 it actually uses

---
 src/ode/aodesolver.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 0adf63b..217d63c 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -157,7 +157,6 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 
 	int step = 0;
 	freal resi = 1.0;
-	freal resiold = resi;
 	freal initres = 1.0;
 
 	// struct timeval time1, time2;
@@ -167,7 +166,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 	const double initialctime = (double)clock() / (double)CLOCKS_PER_SEC;
 
 	std::cout << " Starting CFL = " << config.cflinit << std::endl;
-	freal curCFL = config.cflinit;
+	const freal curCFL = config.cflinit;  // constant for the explicit solver
 
 	SteadyStepMonitor convstep;
 	if(mpirank == 0)
@@ -191,8 +190,6 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 		ierr = VecGhostUpdateBegin(rvec, ADD_VALUES, SCATTER_REVERSE); CHKERRQ(ierr);
 		ierr = VecGhostUpdateEnd(rvec, ADD_VALUES, SCATTER_REVERSE); CHKERRQ(ierr);
 
-		curCFL = expResidualRamp(config.cflinit, config.cflfin, curCFL, resiold/resi, 0.3, 0.25);
-
 		{
 			ConstVecHandler<PetscScalar> dth(dtmvec);
 			const PetscScalar *const dtm = dth.getArray();
@@ -205,7 +202,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 			for(fint iel = 0; iel < m->gnelem(); iel++)
 			{
 				for(int i = 0; i < nvars; i++)
-					u(iel,i) += config.cflinit*dtm[iel] * 1.0/m->garea(iel)*residual(iel,i);
+					u(iel,i) += curCFL*dtm[iel] * 1.0/m->garea(iel)*residual(iel,i);
 			}
 		}
 
@@ -226,7 +223,6 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 		freal glres = 0;
 		MPI_Allreduce(&locresenergy, &glres, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
 
-		resiold = resi;
 		resi = sqrt(glres);
 
 		if(step == 0)
-- 
2.43.0


From b9d6a95b89e1b06c953b7be8e9ec5e3608f5ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 18/49] fix: the diffusion residual can be computed without a
 time step vector

---
 src/spatial/diffusion.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 628d1bc..f831540 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -226,8 +226,10 @@ StatusCode DiffusionMA<nvars>::compute_residual(const Vec uvec, Vec rvec,
 	ierr = VecDestroy(&gradvec); CHKERRQ(ierr);
 
 	{
-		MutableVecHandler<freal> dtvh(timesteps);
-		freal *const dtm = dtvh.getArray();
+		MutableVecHandler<freal> dtvh;
+		if(gettimesteps)
+			dtvh.setVec(timesteps);
+		freal *const dtm = gettimesteps ? dtvh.getArray() : nullptr;
 		MutableVecHandler<freal> rvh(rvec);
 		freal *const rarr = rvh.getArray();
 		Eigen::Map<MVector<freal>> residual(rarr, m->gnelem(), nvars);
-- 
2.43.0


From 16b748abac71e43f6da12c5b43b0fb4d2ff023c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 19/49] fix: diffusion gradients do not index an empty boundary
 array

---
 src/spatial/diffusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index f831540..8f02400 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -336,7 +336,8 @@ void DiffusionMA<nvars>::getGradients(const Vec uvec,
 		compute_boundary_state(iface, &u(lelem,0), &ug(iface,0));
 	}
 
-	gradcomp->compute_gradients(u, amat::Array2dView<freal>(&ug(0,0),m->gnbface(),nvars),
+	const freal *const ugptr = m->gnbface() > 0 ? &ug(0,0) : nullptr;
+	gradcomp->compute_gradients(u, amat::Array2dView<freal>(ugptr,m->gnbface(),nvars),
 	                            &grads[0](0,0));
 }
 
-- 
2.43.0


From 30559ca9ca873c69df17d7afa2fb5fa101c78af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 20/49] fix: diffusion boundary-face Jacobian takes the
 dependence of the ghost state on the interior state into account

---
 src/spatial/diffusion.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 8f02400..54eb614 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -313,6 +313,11 @@ void DiffusionMA<nvars>
 	getFaceGradientAndJacobian_thinLayer(&rc(lelem), &rcbp(ibpface), ul, ul, du, du,
 	                                     grad, dgradl, dgradr);
 
+	// The ghost state is 2*bval - ul, so its derivative w.r.t. ul is -1
+	for(int idim = 0; idim < NDIM; idim++)
+		for(int ivar = 0; ivar < nvars; ivar++)
+			dgradl[idim][ivar][ivar] -= dgradr[idim][ivar][ivar];
+
 	L = Eigen::Matrix<freal,nvars,nvars,Eigen::RowMajor>::Zero();
 	for(int ivar = 0; ivar < nvars; ivar++)
 	{
-- 
2.43.0


From 1439bcde5b1e32d251a9d779e705a3baf9ec5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 21/49] fix: the matrix-free Jacobian product of a zero vector
 is zero instead of an error or NaN

---
 src/linalg/alinalg.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/linalg/alinalg.cpp b/src/linalg/alinalg.cpp
index 344fa4c..222d1a5 100644
--- a/src/linalg/alinalg.cpp
+++ b/src/linalg/alinalg.cpp
@@ -152,18 +152,24 @@ StatusCode MatrixFreeSpatialJacobian<nvars>::apply(const Vec x, Vec y) const
 	const UMesh<freal,NDIM> *const m = spatial->mesh();
 	//ierr = VecSet(y, 0.0); CHKERRQ(ierr);
 
-	Vec aux, yg;
-	ierr = VecDuplicate(u, &aux); CHKERRQ(ierr);
-	ierr = VecDuplicate(res, &yg); CHKERRQ(ierr);
-
 	PetscScalar xnorm = 0;
 	ierr = VecNorm(x, NORM_2, &xnorm); CHKERRQ(ierr);
 
+	// The product with a zero vector is zero, no finite difference is possible or needed
+	if(xnorm == 0) {
+		ierr = VecSet(y, 0.0); CHKERRQ(ierr);
+		return ierr;
+	}
+
 #ifdef DEBUG
 	if(xnorm < 10.0*std::numeric_limits<freal>::epsilon())
 		SETERRQ(PETSC_COMM_SELF, PETSC_ERR_FP,
 				"Norm of offset is too small for finite difference Jacobian!");
 #endif
+
+	Vec aux, yg;
+	ierr = VecDuplicate(u, &aux); CHKERRQ(ierr);
+	ierr = VecDuplicate(res, &yg); CHKERRQ(ierr);
 	const freal pertmag = eps/xnorm;
 
 	// aux <- u + eps/xnorm * x ;    y <- 0
-- 
2.43.0


From d71ca2ec3d21b4502cd5ec35525709482501ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 22/49] fix: the TVD Runge-Kutta solver evaluates residuals at
 its stages with the right sign, on any number of processes

---
 src/ode/aodesolver.cpp | 66 +++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 217d63c..3773c95 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -672,28 +672,22 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	int mpirank;
 	MPI_Comm_rank(PETSC_COMM_WORLD, &mpirank);
 
-	PetscInt locnelem; PetscScalar *uarr; PetscScalar *rarr;
+	PetscInt locnelem;
 	ierr = VecGetLocalSize(uvec, &locnelem); CHKERRQ(ierr);
 	assert(locnelem % nvars == 0);
 	locnelem /= nvars;
 	assert(locnelem == m->gnelem());
 
-	ierr = VecGetArray(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> u(uarr, locnelem, nvars);
-	ierr = VecGetArray(rvec, &rarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> residual(rarr, locnelem, nvars);
-
-
 	int step = 0;
 	freal time = 0;   //< Physical time elapsed
 
 	// Stage solution vector
-	MVector<freal> ustage(m->gnelem(),nvars);
-#pragma omp parallel for simd default(shared)
-	for(fint iel = 0; iel < m->gnelem(); iel++)
-		for(int ivar = 0; ivar < nvars; ivar++)
-			ustage(iel,ivar) = u(iel,ivar);
-	
+	Vec ustagevec;
+	ierr = VecDuplicate(uvec, &ustagevec); CHKERRQ(ierr);
+	ierr = VecCopy(uvec, ustagevec); CHKERRQ(ierr);
+	ierr = VecGhostUpdateBegin(ustagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+	ierr = VecGhostUpdateEnd(ustagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
 	double initialwtime = (double)time1.tv_sec + (double)time1.tv_usec * 1.0e-6;
@@ -705,14 +699,10 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 
 		for(int istage = 0; istage < order; istage++)
 		{
-#pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++) {
-				for(int i = 0; i < nvars; i++)
-					residual(iel,i) = 0;
-			}
+			ierr = VecSet(rvec, 0.0); CHKERRQ(ierr);
 
-			// update residual
-			ierr = space->compute_residual(uvec, rvec, true, dtmvec); CHKERRQ(ierr);
+			// update residual (gives the negative of R(u))
+			ierr = space->compute_residual(ustagevec, rvec, true, dtmvec); CHKERRQ(ierr);
 
 			// update time step for the first stage of each time step
 			if(istage == 0)
@@ -721,28 +711,39 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 				ierr = VecGetArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
 				dtmin = *std::min_element(dtm, dtm+m->gnelem());
 				ierr = VecRestoreArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
+				mpi_all_reduce<freal>(&dtmin, 1, MPI_MIN, PETSC_COMM_WORLD);
 			}
 
 			if(!std::isfinite(dtmin))
 				throw Numerical_error("TVDRK solver diverged - dtmin is Nan or inf!");
 
-#pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++)
 			{
-				for(int i = 0; i < nvars; i++)
+				ConstVecHandler<PetscScalar> uh(uvec);
+				Eigen::Map<const MVector<freal>> u(uh.getArray(), locnelem, nvars);
+				ConstVecHandler<PetscScalar> rh(rvec);
+				Eigen::Map<const MVector<freal>> residual(rh.getArray(), locnelem, nvars);
+				MutableVecHandler<PetscScalar> ush(ustagevec);
+				Eigen::Map<MVector<freal>> ustage(ush.getArray(), locnelem, nvars);
+
+#pragma omp parallel for simd default(shared)
+				for(fint iel = 0; iel < m->gnelem(); iel++)
 				{
-					ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
-						          + tvdcoeffs(istage,1)*ustage(iel,i)
-						          - tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					for(int i = 0; i < nvars; i++)
+					{
+						ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
+						              + tvdcoeffs(istage,1)*ustage(iel,i)
+						              + tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					}
 				}
 			}
-		}
 
-#pragma omp parallel for simd default(shared)
-		for(fint iel = 0; iel < m->gnelem(); iel++)
-			for(int ivar = 0; ivar < nvars; ivar++)
-				u(iel,ivar) = ustage(iel,ivar);
+			ierr = VecGhostUpdateBegin(ustagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(ustagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+		}
 
+		ierr = VecCopy(ustagevec, uvec); CHKERRQ(ierr);
+		ierr = VecGhostUpdateBegin(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+		ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
 
 		if(step % 10 == 0)
 			if(mpirank == 0)
@@ -775,8 +776,7 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 		outf.close();
 	}
 
-	ierr = VecRestoreArray(uvec, &uarr); CHKERRQ(ierr);
-	ierr = VecRestoreArray(rvec, &rarr); CHKERRQ(ierr);
+	ierr = VecDestroy(&ustagevec); CHKERRQ(ierr);
 	return ierr;
 }
 
-- 
2.43.0


From b410edfd2231ca903ad74ac2985daee79f84d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 23/49] fix: Jacobian preallocation does not ask for more
 blocks than there are cells

---
 src/linalg/alinalg.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linalg/alinalg.cpp b/src/linalg/alinalg.cpp
index 222d1a5..59da556 100644
--- a/src/linalg/alinalg.cpp
+++ b/src/linalg/alinalg.cpp
@@ -1,4 +1,5 @@
 #include "alinalg.hpp"
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <cstring>
@@ -49,7 +50,7 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		std::vector<PetscInt> dnnz(m->gnelem());
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
-			dnnz[iel] = m->gnfael(iel)+1;
+			dnnz[iel] = std::min(static_cast<fint>(m->gnfael(iel)+1), m->gnelem());
 		}
 
 		std::vector<PetscInt> onnz(m->gnelem(),0);
@@ -66,7 +67,7 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
 			for(int i = 0; i < nvars; i++) {
-				dnnz[iel*nvars+i] = (m->gnfael(iel)+1)*nvars;
+				dnnz[iel*nvars+i] = std::min(static_cast<fint>(m->gnfael(iel)+1), m->gnelem())*nvars;
 			}
 		}
 
-- 
2.43.0


From 6a048859f588db4b32591e939b3205a5735934ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 24/49] fix: skin friction uses the viscosity of the
 simulation, none in inviscid flow

---
 src/spatial/flow_spatial.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index c6a3cf8..aaffe65 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -222,8 +222,10 @@ FlowFV_base<scalar>::computeSurfaceData (const amat::Array2dView<scalar> u,
 			 * Note that if n is (n1,n2), t is chosen as (n2,-n1).
 			 */
 
-			// non-dim viscosity / Re_inf
-			const scalar muhat = physics.getViscosityCoeffFromConserved(urec);
+			// non-dim viscosity / Re_inf; there is no friction in inviscid flow
+			const scalar muhat = !pconfig.viscous_sim ? static_cast<scalar>(0)
+				: pconfig.const_visc ? static_cast<scalar>(physics.getConstantViscosityCoeff())
+				: physics.getViscosityCoeffFromConserved(urec);
 
 			// velocity gradient tensor
 			scalar gradu[NDIM][NDIM];
-- 
2.43.0


From 966305946e99f7276e1fb054a89861891bf67a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 25/49] fix: steady solvers recognise an initial residual of
 exactly zero as converged

---
 src/ode/aodesolver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 3773c95..c4eb5d2 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -173,7 +173,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 		writeConvergenceHistoryHeader(std::cout);
 
 
-	while(resi/initres > config.tol && step < config.maxiter)
+	while(resi > config.tol*initres && step < config.maxiter)
 	{
 		{
 			MutableGhostedVecHandler<PetscScalar> rh(rvec);
@@ -256,7 +256,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 		writeStepToConvergenceHistory(convstep, std::cout);
 
 	tdata.converged = true;
-	if(resi/initres > config.tol) {
+	if(resi > config.tol*initres) {
 		tdata.converged = false;
 		if(mpirank == 0)
 			std::cout << "! SteadyForwardEulerSolver: solve(): Exceeded max iterations!\n";
@@ -412,7 +412,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	if(mpirank == 0)
 		writeConvergenceHistoryHeader(std::cout);
 		
-	while(resi/initres > config.tol && step < config.maxiter)
+	while(resi > config.tol*initres && step < config.maxiter)
 	{
 		{
 			MutableGhostedVecHandler<PetscScalar> rh(rvec);
@@ -612,7 +612,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	tdata.lin_cputime = linctime;
 
 	tdata.converged = false;
-	if(resi/initres <= config.tol)
+	if(resi <= config.tol*initres)
 		tdata.converged = true;
 	else if (step >= config.maxiter){
 		if(mpirank == 0) {
-- 
2.43.0


From 98824dfe38b7d82c4b42c828fb1a37fc9f5502b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 26/49] fix: boundary faces with more than two tags survive
 partitioning

---
 src/mesh/meshpartitioning.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index d530384..3d9eae8 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -225,13 +225,11 @@ void ReplicatedGlobalMeshPartitioner::extractbfaces(const std::map<fint,fint>& p
 	const int irank = get_mpi_rank(MPI_COMM_WORLD);
 
 	lm.nbface = 0;
-	std::vector<std::array<fint,6>> tbfaces;         // assuming max 4 points and 2 tags per face
-	assert(gm.nnofa <= 4);
-	assert(gm.nbtag <= 2);
+	std::vector<std::vector<fint>> tbfaces;
 	for(fint iface = 0; iface < gm.nbface; iface++)
 	{
 		bool reqd = true;
-		std::array<fint,6> locbfpoints;
+		std::vector<fint> locbfpoints(gm.nnofa+gm.nbtag);
 		// for(int j = 0; j < gm.nnofa; j++)
 		// {
 		// 	try {
-- 
2.43.0


From c1aacd6c71f314b9aa50537092eee7b4abc7f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 27/49] fix: reordering cells keeps regions and connectivity
 faces with the cells they belong to

---
 src/mesh/mesh.cpp         | 41 ++++++++++++++++++++++++++++++++++++++-
 src/mesh/meshordering.cpp |  1 +
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 9ea44b5..2e54308 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -21,6 +21,7 @@
 #include <iomanip>
 #include <fstream>
 #include <algorithm>
+#include <map>
 #include <boost/algorithm/string.hpp>
 
 #include "mesh.hpp"
@@ -43,7 +44,7 @@ UMesh<scalar,ndim>::UMesh(const MeshData& md)
 	  npoin{md.npoin}, nelem{md.nelem}, nbface{md.nbface}, nnode(md.nnode), maxnnode{md.maxnnode},
 	  nfael(md.nfael), maxnfael{md.maxnfael}, nnofa{md.nnofa}, nbtag{md.nbtag}, ndtag{md.ndtag},
 	  coords(md.coords), inpoel(md.inpoel), bface(md.bface), vol_regions(md.vol_regions),
-	  nconnface{0}
+	  nconnface{0}, isBoundaryMaps{false}
 {  }
 
 template <typename scalar, int ndim>
@@ -88,14 +89,52 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 	const amat::Array2d<fint> tempelems = inpoel;
 	const std::vector<int> tempnnode = nnode;
 	const std::vector<int> tempnfael = nfael;
+	const amat::Array2d<int> tempregions = vol_regions;
 
 	for(fint i = 0; i < nelem; i++)
 	{
 		for(int j = 0; j < inpoel.cols(); j++)
 			inpoel(i,j) = tempelems(permvec[i],j);
+		for(int j = 0; j < vol_regions.cols(); j++)
+			vol_regions(i,j) = tempregions(permvec[i],j);
 		nnode[i] = tempnnode[permvec[i]];
 		nfael[i] = tempnfael[permvec[i]];
 	}
+
+	if(nconnface == 0)
+		return;
+
+	// Connectivity faces refer to cells of this subdomain and to global indices of cells
+	//  in other subdomains, which are reordered as well
+	std::vector<fint> newpos(nelem);
+	for(fint i = 0; i < nelem; i++)
+		newpos[permvec[i]] = i;
+
+	// for each neighbouring rank: (global face index, new global cell index) for each shared face
+	std::map<int,std::vector<fint>> sendbuf, recvbuf;
+	for(fint icface = 0; icface < nconnface; icface++)
+	{
+		connface(icface,0) = newpos[connface(icface,0)];
+		sendbuf[connface(icface,2)].push_back(connface(icface,4));
+		sendbuf[connface(icface,2)].push_back(globalElemIndex[connface(icface,0)]);
+	}
+
+	for(const auto& nbd : sendbuf)
+	{
+		std::vector<fint>& rbuf = recvbuf[nbd.first];
+		rbuf.resize(nbd.second.size());
+		MPI_Sendrecv(nbd.second.data(), nbd.second.size(), FVENS_MPI_INT, nbd.first, nbd.first,
+		             rbuf.data(), rbuf.size(), FVENS_MPI_INT, nbd.first,
+		             get_mpi_rank(PETSC_COMM_WORLD), PETSC_COMM_WORLD, MPI_STATUS_IGNORE);
+	}
+
+	for(fint icface = 0; icface < nconnface; icface++)
+	{
+		const std::vector<fint>& rbuf = recvbuf[connface(icface,2)];
+		for(size_t i = 0; i < rbuf.size(); i += 2)
+			if(rbuf[i] == connface(icface,4))
+				connface(icface,3) = rbuf[i+1];
+	}
 }
 
 /**	Stores (in array bpointsb) for each boundary point: the associated global point number and
diff --git a/src/mesh/meshordering.cpp b/src/mesh/meshordering.cpp
index 9448bea..0a22288 100644
--- a/src/mesh/meshordering.cpp
+++ b/src/mesh/meshordering.cpp
@@ -144,6 +144,7 @@ LocalAnisotropies computeWeights(const UMesh<scalar,2>& m)
 {
 	LocalAnisotropies la;
 	la.aniso.resize(m.gnelem(), m.gmaxnfael());
+	la.aniso.zeros();
 	la.faceIdx.resize(m.gnelem(), m.gmaxnfael());
 	for(fint i = 0; i < m.gnelem(); i++)
 		for(int j = 0; j < m.gmaxnfael(); j++)
-- 
2.43.0


From 8228a5a225e3632ad7bfad3e12c5a0a1a5f76739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 28/49] fix: initialise the Scotch graph before building it

---
 src/mesh/meshpartitioning.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 3d9eae8..361eee1 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -406,9 +406,10 @@ void ScotchRGMPartitioner::compute_partition()
 	if(rank == 0) {
 		printf(" Using Scotch to compute a partition..\n");
 		SCOTCH_Graph *sgraph = SCOTCH_graphAlloc();
+		fvens_throw(SCOTCH_graphInit(sgraph), "Scotch could not initialize the graph!");
 		const ListOfArrays<fint> loa = getCellAdjLists(gm);
 		int ierr = SCOTCH_graphBuild(sgraph, 0, gm.gnelem(), &loa.ptrs[0], NULL, NULL, NULL,
-		                             loa.ptrs.back(), &loa.store[0], NULL);
+		                             loa.ptrs.back(), loa.store.data(), NULL);
 		fvens_throw(ierr, "Scotch could not build the global graph!");
 		ierr = SCOTCH_graphCheck(sgraph); fvens_throw(ierr, "Scotch graph is not consistent!");
 
-- 
2.43.0


From 7ef7e5b50641f8f43d8137923d70df6eacb83d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 29/49] fix: PETSc orderings of a distributed mesh use the
 cells of the subdomain only

---
 src/mesh/ameshutils.cpp | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/mesh/ameshutils.cpp b/src/mesh/ameshutils.cpp
index d8fc58e..026304c 100644
--- a/src/mesh/ameshutils.cpp
+++ b/src/mesh/ameshutils.cpp
@@ -28,12 +28,10 @@ namespace fvens {
  * \param ordering The ordering to use - "rcm" is recommended. See the relevant
  * [page](www.mcs.anl.gov/petsc/petsc-current/docs/manualpages/Mat/MatOrderingType.html)
  * in the PETSc manual for the full list.
- * \param sd Spatial discretization to be used to generate a Jacobian matrix
  * \param m The mesh context
  */
 template <typename scalar>
-static StatusCode reorderMeshPetsc(const char *const ordering, const Spatial<freal,1>& sd,
-                                   UMesh<scalar,NDIM>& m);
+static StatusCode reorderMeshPetsc(const char *const ordering, UMesh<scalar,NDIM>& m);
 
 template <typename scalar>
 StatusCode preprocessMesh(UMesh<scalar,NDIM>& m)
@@ -81,14 +79,7 @@ StatusCode preprocessMesh(UMesh<scalar,NDIM>& m)
 			hybridLineReorder(m, threshold, secondorder.c_str());
 		}
 		else {
-			DiffusionMA<1> sd(&m, 1.0, 0.0,
-			                  [](const freal *const r, const freal t,
-			                     const freal *const u,
-			                     freal *const sourceterm)
-			                  { sourceterm[0] = 0; },
-			                  "NONE");
-
-			ierr = reorderMeshPetsc(ordstr, sd, m); CHKERRQ(ierr);
+			ierr = reorderMeshPetsc(ordstr, m); CHKERRQ(ierr);
 		}
 	}
 
@@ -243,9 +234,8 @@ std::array<bool,8> compareMeshes(const UMesh<freal,NDIM>& m1, const UMesh<freal,
 }
 
 template <typename scalar>
-StatusCode reorderMeshPetsc(const char *const ordering, const Spatial<freal,1>& sd, UMesh<scalar,NDIM>& m)
+StatusCode reorderMeshPetsc(const char *const ordering, UMesh<scalar,NDIM>& m)
 {
-	// The implementation must be changed for the multi-process case
 	StatusCode ierr = 0;
 
 	// If the ordering requested is not 'natural', reorder the mesh
@@ -256,11 +246,14 @@ StatusCode reorderMeshPetsc(const char *const ordering, const Spatial<freal,1>&
 		CHKERRQ(MatSetSizes(A, PETSC_DECIDE, PETSC_DECIDE, m.gnelem(), m.gnelem()));
 		CHKERRQ(setJacobianPreallocation<1>(&m, A));
 
-		Vec u;
-		CHKERRQ(VecCreateSeq(PETSC_COMM_SELF, m.gnelem(), &u));
-		CHKERRQ(VecSet(u,1.0));
-
-		ierr = sd.assemble_jacobian(u, A); CHKERRQ(ierr);
+		// Only the connectivity between cells of this subdomain is needed for the ordering
+		for(fint iel = 0; iel < m.gnelem(); iel++)
+		{
+			CHKERRQ(MatSetValue(A, iel, iel, 1.0, INSERT_VALUES));
+			for(EIndex j = 0; j < m.gnfael(iel); j++)
+				if(m.gesuel(iel,j) < m.gnelem())
+					CHKERRQ(MatSetValue(A, iel, m.gesuel(iel,j), 1.0, INSERT_VALUES));
+		}
 		CHKERRQ(MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY));
 		CHKERRQ(MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY));
 
@@ -279,7 +272,6 @@ StatusCode reorderMeshPetsc(const char *const ordering, const Spatial<freal,1>&
 		ierr = ISDestroy(&rperm); CHKERRQ(ierr);
 		ierr = ISDestroy(&cperm); CHKERRQ(ierr);
 		CHKERRQ(MatDestroy(&A));
-		CHKERRQ(VecDestroy(&u));
 	}
 	else {
 		std::cout << " reorderMesh: Natural ordering requested; doing nothing." << std::endl;
-- 
2.43.0


From dabb75285a5dee3a56825bf451d68a4e10027751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:18 +0000
Subject: [PATCH 30/49] fix: convertformat reports missing arguments instead of
 reading past the argument list

---
 src/utilities/convertformat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities/convertformat.cpp b/src/utilities/convertformat.cpp
index 9bedaf5..1ad8de6 100644
--- a/src/utilities/convertformat.cpp
+++ b/src/utilities/convertformat.cpp
@@ -10,8 +10,8 @@ int main(int argc, char* argv[])
 {
 	if(argc < 4) {
 		cout << "Need: 1. Input mesh file, 2. Output mesh file 3. Output format.\n" << endl;
+		return -1;
 	}
-	string confilename(argv[1]);
 	string inmesh = argv[1], outmesh = argv[2], outformat = argv[3];
 
 	//cout << "Input file is of type " << informat << ". Writing as " << outformat << ".\n";
-- 
2.43.0


From 554430794e37c223866f28e9b7e00b984532c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:18 +0000
Subject: [PATCH 31/49] fix: mesh output to VTU writes correct offsets for
 hybrid meshes and reports files that cannot be opened

---
 src/spatial/aoutput.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 113abb9..9b03620 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -557,7 +557,8 @@ void writeScalarsVectorToVtu_PointData(std::string fname, const fvens::UMesh<fre
 void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 {
 	std::cout << "Writing vtu output...\n";
-	std::ofstream out(fname);
+	std::ofstream out;
+	open_file_toWrite(fname, out);
 	
 	out << std::setprecision(10);
 
@@ -586,8 +587,11 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"UInt32\" Name=\"offsets\" Format=\"ascii\">\n";
-	for(int i = 0; i < m.gnelem(); i++)
-		out << "\t\t\t\t" << m.gnnode(i)*(i+1) << '\n';
+	fint offset = 0;
+	for(int i = 0; i < m.gnelem(); i++) {
+		offset += m.gnnode(i);
+		out << "\t\t\t\t" << offset << '\n';
+	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"Int32\" Name=\"types\" Format=\"ascii\">\n";
 	for(int i = 0; i < m.gnelem(); i++)
-- 
2.43.0


From 6d3ef86775679d7d27dcd26a66684f35a0f24fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 32/49] fix: nodal averages of the cell values are weighted by
 the area once per cell

---
 src/spatial/aoutput.cpp   | 6 +++---
 src/spatial/diffusion.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 9b03620..c80d59f 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -115,11 +115,11 @@ StatusCode FlowOutput::postprocess_point(const Vec uvec,
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < NVARS; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
-			}
+			areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 54eb614..3b4860c 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -360,16 +360,16 @@ StatusCode scalar_postprocess_point(const UMesh<freal,NDIM> *const m, const Vec
 	StatusCode ierr = 0;
 	const PetscScalar* uarr;
 	ierr = VecGetArrayRead(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), NVARS);
+	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), nvars);
 
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < nvars; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
-			}
+			areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From a45983bfaa9af4913884c9baee5f9e4eb944e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 33/49] fix: settings not given in the control file have fixed
 values

---
 src/utilities/controlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index b5a72f0..798bc5b 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -74,6 +74,12 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 	opts.order2 = true;
 	opts.Reinf=0; opts.Tinf=0; opts.Pr=0; 
 	opts.time_integrator = "NONE";
+	opts.limiter_param = 0.0;
+	opts.usestarter = 0; opts.soln_init_type = 0;
+	opts.firstinitcfl = 0; opts.firstendcfl = 0; opts.firsttolerance = 0; opts.firstmaxiter = 0;
+	opts.rampstart = 0; opts.rampend = 0; opts.firstrampstart = 0; opts.firstrampend = 0;
+	opts.final_time = 0; opts.phy_timestep = 0; opts.phy_cfl = 0; opts.time_order = 0;
+	opts.min_nl_update = 0.2;
 
 	// Define string constants used as keywords in the control file
 
-- 
2.43.0


From d51f4d6ccee50a995f497bbfa3aab13cf908cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 34/49] fix: a file that cannot be opened for reading raises an
 error instead of aborting

---
 src/utilities/aerrorhandling.cpp | 3 +--
 src/utilities/aerrorhandling.hpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utilities/aerrorhandling.cpp b/src/utilities/aerrorhandling.cpp
index f678ec6..f398b54 100644
--- a/src/utilities/aerrorhandling.cpp
+++ b/src/utilities/aerrorhandling.cpp
@@ -44,8 +44,7 @@ void open_file_toRead(const std::string file, std::ifstream& fin)
 {
 	fin.open(file);
 	if(!fin) {
-		std::cout << "! Could not open file "<< file <<" !\n";
-		std::abort();
+		throw std::runtime_error("Could not open file " + file);
 	}
 }
 
diff --git a/src/utilities/aerrorhandling.hpp b/src/utilities/aerrorhandling.hpp
index 0745d73..ab636e7 100644
--- a/src/utilities/aerrorhandling.hpp
+++ b/src/utilities/aerrorhandling.hpp
@@ -84,7 +84,7 @@ inline void petsc_throw(const int ierr, const std::string str) {
 		throw fvens::Petsc_exception(str);
 }
 
-/// Opens a file for reading but aborts in case of an error
+/// Opens a file for reading but throws in case of an error
 void open_file_toRead(const std::string file, std::ifstream& fin);
 
 /// Opens a file for writing but throws in case of an error
-- 
2.43.0


From c414998ef886b13ef65fa4665ecc026e5eb9e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 35/49] fix: unknown flow, flux, gradient, reconstruction and
 pseudo-time stepping names raise an error

---
 src/utilities/afactory.cpp      | 15 ++++++++-------
 src/utilities/controlparser.cpp |  6 ++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/utilities/afactory.cpp b/src/utilities/afactory.cpp
index a6986e7..541135d 100644
--- a/src/utilities/afactory.cpp
+++ b/src/utilities/afactory.cpp
@@ -24,6 +24,7 @@
 #include "spatial/limitedlinearreconstruction.hpp"
 #include "spatial/musclreconstruction.hpp"
 #include "mpiutils.hpp"
+#include "aerrorhandling.hpp"
 
 namespace fvens {
 
@@ -77,8 +78,7 @@ InviscidFlux<scalar>* create_mutable_inviscidflux(
 			std::cout << " InviscidFluxFactory: Using AUSM+ fluxes." << std::endl;
 	}
 	else
-		if(mpirank == 0)
-			std::cout << " InviscidFluxFactory: ! Flux scheme not available!" << std::endl;
+		throw UnsupportedOptionError("inviscid flux " + type);
 
 	return inviflux;
 }
@@ -120,11 +120,14 @@ GradientScheme<scalar,nvars>* create_mutable_gradientscheme(const std::string& t
 		if(mpirank == 0)
 			std::cout << " GradientSchemeFactory: Green-Gauss gradients will be used.\n";
 	}
-	else {
+	else if(type == "NONE")
+	{
 		gradcomp = new ZeroGradients<scalar,nvars>(m, rc, rcbp);
 		if(mpirank == 0)
 			std::cout << " GradientSchemeFactory: No gradient computation.\n";
 	}
+	else
+		throw UnsupportedOptionError("gradient scheme " + type);
 
 	return gradcomp;
 }
@@ -205,10 +208,8 @@ SolutionReconstruction<scalar,nvars>* create_mutable_reconstruction(const std::s
 		if(mpirank == 0)
 			std::cout << " ReconstructionFactory: Venkatakrishnan linear reconstruction selected.\n";
 	}
-	else {
-		if(mpirank == 0)
-			std::cout << " !ReconstructionFactory: Invalid reconstruction!!\n";
-	}
+	else
+		throw UnsupportedOptionError("reconstruction " + type);
 
 	return reconst;
 }
diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 798bc5b..84ca6f5 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -137,6 +137,8 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 			throw UnsupportedOptionError("flowtype RANS");
 	}
 	else {
+		if(opts.flowtype != "EULER")
+			throw UnsupportedOptionError("flow type " + opts.flowtype);
 		opts.viscsim = false;
 		opts.Tinf = 298.0;
 		opts.Reinf = 1.0/0.0;
@@ -210,6 +212,10 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 		opts.min_nl_update = infopts.get(c_pseudotime+"."+"min_nonlinear_relaxation_factor",
 		                                           0.2);
 	}
+	else if(opts.pseudotimetype == "EXPLICIT")
+		opts.invfluxjac = opts.invflux;     // no Jacobian is needed
+	else
+		throw UnsupportedOptionError("pseudo-time stepping type " + opts.pseudotimetype);
 	
 	// check for some PETSc options
 	char petsclogfile[200];
-- 
2.43.0


From 47d9a723eb8fa9dbeaf0bc8b70eba91430bd2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 36/49] fix: the total temperature of subsonic inflow
 boundaries is given in Kelvin as documented

---
 src/spatial/abc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 5550025..4175efc 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -493,7 +493,8 @@ std::map<int,const FlowBC<scalar>*> create_const_flowBCs(const std::vector<FlowB
 			bc = new InOutFlow<scalar>(itbc->bc_tag, physics, uinf);
 			break;
 		case SUBSONIC_INFLOW_BC:
-			bc = new InFlow<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0], itbc->bc_vals[1]);
+			bc = new InFlow<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0],
+			                        itbc->bc_vals[1]/physics.Tinf);
 			break;
 		case EXTRAPOLATION_BC:
 			bc = new Extrapolation<scalar>(itbc->bc_tag, physics);
-- 
2.43.0


From 78f04d3978a88feadace6b35f7aa4ad7e163dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 37/49] fix: lists of numbers in the control file are read with
 or without quotes, and too short ones are refused

---
 src/utilities/controlparser.cpp | 57 ++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 84ca6f5..70946b7 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -53,6 +53,42 @@ std::vector<T> parseStringToVector(const std::string str)
 	return vec;
 }
 
+/// Whether a string is a number
+static inline bool isNumber(const std::string str) {
+	char *end;
+	std::strtod(str.c_str(), &end);
+	return !str.empty() && *end == '\0';
+}
+
+/// Get a list of numbers, which may or may not be within quotes in the control file
+/** Only the first of several values without quotes is the value of the key in the property tree.
+ * The others become keys (each possibly having the next one as its value) following it.
+ */
+static boost::optional<std::string> get_optionalList(const pt::ptree& tree, const std::string key)
+{
+	boost::optional<std::string> list;
+	for(auto it = tree.begin(); it != tree.end(); ++it)
+		if(!list) {
+			if(it->first == key)
+				list = it->second.data();
+		}
+		else {
+			if(!isNumber(it->first))
+				break;
+			*list += " " + it->first + " " + it->second.data();
+		}
+	return list;
+}
+
+/// Get a list of numbers from a property tree or throw if there is none
+static std::string get_list(const pt::ptree& tree, const std::string key)
+{
+	const boost::optional<std::string> list = get_optionalList(tree, key);
+	if(!list)
+		throw InputNotGivenError(key);
+	return *list;
+}
+
 /// Parse options related to boundary conditions
 static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
                                                   const std::string bc_keyword);
@@ -62,8 +98,7 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 {
 	if(argc < 2)
 	{
-		std::cerr << "! Please give a control file name.\n";
-		std::abort();
+		throw InputNotGivenError("control file name");
 	}
 
 	FlowParserOptions opts;
@@ -147,12 +182,12 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 
 	opts.bcconf = parse_BC_options(infopts, c_bcs);
 
-	auto optlwalls = infopts.get_optional<std::string>(c_bcs+".listof_output_wall_boundaries");
+	auto optlwalls = get_optionalList(infopts.get_child(c_bcs), "listof_output_wall_boundaries");
 	if(optlwalls)
 		opts.lwalls = parseStringToVector<int>(*optlwalls);
 	opts.num_out_walls = static_cast<int>(opts.lwalls.size());
 
-	auto optlothers= infopts.get_optional<std::string>(c_bcs+".listof_output_other_boundaries");
+	auto optlothers= get_optionalList(infopts.get_child(c_bcs), "listof_output_other_boundaries");
 	if(optlothers)
 		opts.lothers = parseStringToVector<int>(*optlothers);
 	opts.num_out_others = static_cast<int>(opts.lothers.size());
@@ -279,16 +314,22 @@ static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
 			if(bconf.bc_type == ADIABATIC_WALL_BC  ||
 			   bconf.bc_type == ISOTHERMAL_WALL_BC ||
 			   bconf.bc_type == SUBSONIC_INFLOW_BC)   {
-				std::string bvals = infopts.get<std::string>(c_bcs+".bc"+std::to_string(ibc)+
-				                                             ".boundary_values");
+				std::string bvals = get_list(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                                   "boundary_values");
 				bconf.bc_vals = parseStringToVector<freal>(bvals);
+				if(bconf.bc_vals.size() < (bconf.bc_type == ADIABATIC_WALL_BC ? 1u : 2u))
+					throw InputNotGivenError("boundary values for boundary condition "
+					                         + std::to_string(ibc));
 			}
 
 			// array of options
 			if(bconf.bc_type == PERIODIC_BC) {
-				std::string bcopts = infopts.get<std::string>(c_bcs +".bc"+std::to_string(ibc)+
-				                                              ".options");
+				std::string bcopts = get_list(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                                    "options");
 				bconf.bc_opts = parseStringToVector<int>(bcopts);
+				if(bconf.bc_opts.size() < 2)
+					throw InputNotGivenError("options for boundary condition "
+					                         + std::to_string(ibc));
 			}
 
 			bcvec.push_back(bconf);
-- 
2.43.0


From ea659e03872c70bc25d36e75c7d8bc11e0eb4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 38/49] fix: runs without output walls do not index an empty
 list of walls

---
 src/utilities/casesolvers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 65c8b9f..b644284 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -147,6 +147,12 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 			std::cout << "FlowCase: Files will not be written in multi-process runs.\n";
 	}
 	
+	// The coefficients are those of the first output wall, if there is one
+	if(opts.lwalls.empty()) {
+		delete prob;
+		return FlowSolutionFunctionals{h, entropy, 0, 0, 0};
+	}
+
 	MVector<freal> output; output.resize(m.gnelem(),NDIM+2);
 	std::vector<GradBlock_t<freal,NDIM,NVARS>> grad;
 	grad.resize(m.gnelem());
-- 
2.43.0


From 3a5356ec85bb624848486a6f45a0e8376c34cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 39/49] fix: surface data of runs is sized by the number of
 boundary faces

---
 src/utilities/casesolvers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index b644284..e92931c 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -153,7 +153,7 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 		return FlowSolutionFunctionals{h, entropy, 0, 0, 0};
 	}
 
-	MVector<freal> output; output.resize(m.gnelem(),NDIM+2);
+	MVector<freal> output; output.resize(m.gnbface(),NDIM+2);
 	std::vector<GradBlock_t<freal,NDIM,NVARS>> grad;
 	grad.resize(m.gnelem());
 	prob->getGradients(u, &grad[0]);
-- 
2.43.0


From ed2157e457c58b7d891927cd0e9ad0c66107db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 40/49] fix: programs report errors with a message and a
 non-zero exit status instead of terminating on a signal

---
 src/fvens_steady.cpp            | 14 +++++++++++++-
 src/utilities/convertformat.cpp | 22 ++++++++++++++--------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/fvens_steady.cpp b/src/fvens_steady.cpp
index 720c3e4..a6ea231 100644
--- a/src/fvens_steady.cpp
+++ b/src/fvens_steady.cpp
@@ -12,7 +12,7 @@
 using namespace fvens;
 namespace po = boost::program_options;
 
-int main(int argc, char *argv[])
+static int run_steady(int argc, char *argv[])
 {
 	StatusCode ierr = 0;
 	const char help[] = "Finite volume solver for Euler or Navier-Stokes equations.\n\
@@ -55,3 +55,15 @@ int main(int argc, char *argv[])
 		std::cout << "\n\n--------------- End --------------------- \n\n";
 	return ierr;
 }
+
+int main(int argc, char *argv[])
+{
+	try {
+		return run_steady(argc, argv);
+	}
+	catch(const std::exception& e) {
+		std::cerr << "FVENS: Error: " << e.what() << std::endl;
+		MPI_Abort(MPI_COMM_WORLD, 1);
+		return 1;
+	}
+}
diff --git a/src/utilities/convertformat.cpp b/src/utilities/convertformat.cpp
index 1ad8de6..d454aff 100644
--- a/src/utilities/convertformat.cpp
+++ b/src/utilities/convertformat.cpp
@@ -16,15 +16,21 @@ int main(int argc, char* argv[])
 
 	//cout << "Input file is of type " << informat << ". Writing as " << outformat << ".\n";
 
-	const MeshData md = readMesh(inmesh);
-	const UMesh<freal,NDIM> m(md);
+	try {
+		const MeshData md = readMesh(inmesh);
+		const UMesh<freal,NDIM> m(md);
 
-	if(outformat == "msh")	
-		m.writeGmsh2(outmesh);
-	else if(outformat == "vtu")
-		writeMeshToVtu(outmesh, m);
-	else {
-		cout << "Invalid format. Exiting." << endl;
+		if(outformat == "msh")	
+			m.writeGmsh2(outmesh);
+		else if(outformat == "vtu")
+			writeMeshToVtu(outmesh, m);
+		else {
+			cout << "Invalid format. Exiting." << endl;
+			return -1;
+		}
+	}
+	catch(const std::exception& e) {
+		cerr << "convertformat: Error: " << e.what() << endl;
 		return -1;
 	}
 
-- 
2.43.0


From 595eb299b4d0193cd7dc0799964a8896850cd17b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 41/49] fix: mesh readers refuse truncated, corrupted and
 inconsistent files

---
 src/mesh/meshreaders.cpp | 92 +++++++++++++++++++++++++++++++---------
 1 file changed, 71 insertions(+), 21 deletions(-)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 83a1484..4985860 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -32,6 +32,37 @@ namespace fvens {
 static MeshData readGmsh2(const std::string mfile);
 static MeshData readSU2(const std::string mfile);
 
+/// Number of bytes in a file, an upper bound for the number of entities in it
+static long get_file_size(std::ifstream& fin)
+{
+	fin.seekg(0, std::ios::end);
+	const long size = static_cast<long>(fin.tellg());
+	fin.seekg(0, std::ios::beg);
+	return size;
+}
+
+/// Throws unless the last read succeeded and gave a number in the range [lo,hi]
+static void check_read(const std::ifstream& fin, const long num, const long lo, const long hi,
+                       const std::string what)
+{
+	if(!fin || num < lo || num > hi)
+		throw std::runtime_error("Mesh file: invalid or missing " + what);
+}
+
+/// Throws if cells or boundary faces refer to points that do not exist
+static void check_node_indices(const MeshData& m)
+{
+	for(fint i = 0; i < m.nelem; i++)
+		for(int j = 0; j < m.nnode[i]; j++)
+			if(m.inpoel.get(i,j) < 0 || m.inpoel.get(i,j) >= m.npoin)
+				throw std::runtime_error("Mesh file: invalid node in cell " + std::to_string(i));
+	for(fint i = 0; i < m.nbface; i++)
+		for(int j = 0; j < m.nnofa; j++)
+			if(m.bface.get(i,j) < 0 || m.bface.get(i,j) >= m.npoin)
+				throw std::runtime_error("Mesh file: invalid node in boundary face "
+				                         + std::to_string(i));
+}
+
 MeshData readMesh(const std::string mfile)
 {
 	// const int mpirank = get_mpi_rank(MPI_COMM_WORLD);
@@ -67,17 +98,17 @@ MeshData readGmsh2(const std::string mfile)
 {
 	MeshData m;
 
-	int dum; double dummy; std::string dums; char ch;
+	int dum; double dummy; std::string dums;
 
 	std::ifstream infile;
 	open_file_toRead(mfile, infile);
+	const long filesize = get_file_size(infile);
 
 	for(int i = 0; i < 4; i++)		//skip 4 lines
-		do
-			ch = infile.get();
-		while(ch != '\n');
+		std::getline(infile, dums);
 
 	infile >> m.npoin;
+	check_read(infile, m.npoin, 1, filesize, "number of points");
 	m.coords.resize(m.npoin,NDIM);
 
 	// read m.coords of points
@@ -96,7 +127,10 @@ MeshData readGmsh2(const std::string mfile)
 	/// elmtype is the standard element type in the Gmsh 2 mesh format - of either faces or elements
 	m.ndtag = 0; m.nbtag = 0;
 	infile >> nelm;
+	check_read(infile, nelm, 1, filesize, "number of elements");
 	amat::Array2d<fint > elms(nelm,width_elms);
+	elms.zeros();
+	int nnofa_first = 0;
 	m.nbface = 0; m.nelem = 0;
 	std::vector<int> nnodes(nelm,0);
 	std::vector<int> nfaels(nelm,0);
@@ -115,6 +149,7 @@ MeshData readGmsh2(const std::string mfile)
 			case(1): // linear edge
 				m.nnofa = 2;
 				infile >> nbtags;
+				check_read(infile, nbtags, 0, width_elms-m.nnofa, "number of tags");
 				if(nbtags > m.nbtag) m.nbtag = nbtags;
 				for(int j = 0; j < nbtags; j++)
 					infile >> elms(i,j+m.nnofa);		// get tags
@@ -125,6 +160,7 @@ MeshData readGmsh2(const std::string mfile)
 			case(8): // quadratic edge
 				m.nnofa = 3;
 				infile >> nbtags;
+				check_read(infile, nbtags, 0, width_elms-m.nnofa, "number of tags");
 				if(nbtags > m.nbtag) m.nbtag = nbtags;
 				for(int j = 0; j < nbtags; j++)
 					infile >> elms(i,j+m.nnofa);		// get tags
@@ -137,6 +173,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 3;
 				m.nnofa = 2;
 				infile >> ntags;
+				check_read(infile, ntags, 0, width_elms-9, "number of tags");
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
@@ -149,6 +186,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 4;
 				m.nnofa = 2;
 				infile >> ntags;
+				check_read(infile, ntags, 0, width_elms-9, "number of tags");
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
@@ -161,6 +199,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 3;
 				m.nnofa = 3;
 				infile >> ntags;
+				check_read(infile, ntags, 0, width_elms-9, "number of tags");
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
@@ -173,6 +212,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 4;
 				m.nnofa = 3;
 				infile >> ntags;
+				check_read(infile, ntags, 0, width_elms-9, "number of tags");
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
@@ -185,6 +225,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 4;
 				m.nnofa = 3;
 				infile >> ntags;
+				check_read(infile, ntags, 0, width_elms-9, "number of tags");
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
@@ -193,20 +234,17 @@ MeshData readGmsh2(const std::string mfile)
 				m.nelem++;
 				break;
 			default:
-				std::cout << "! UMesh2d: readGmsh2(): Element type not recognized.";
-				std::cout << " Setting as linear triangle." << std::endl;
-				nnodes[i] = 3;
-				nfaels[i] = 3;
-				m.nnofa = 2;
-				infile >> ntags;
-				if(ntags > m.ndtag) m.ndtag = ntags;
-				for(int j = 0; j < ntags; j++)
-					infile >> elms(i,j+nnodes[i]);		// get tags
-				for(int j = 0; j < nnodes[i]; j++)
-					infile >> elms(i,j);			// get node numbers
-				m.nelem++;
+				throw std::runtime_error("Mesh file: element type not recognized");
 		}
+
+		if(i == 0)
+			nnofa_first = m.nnofa;
+		if(!infile || m.nnofa != nnofa_first)
+			throw std::runtime_error("Mesh file: invalid element " + std::to_string(i));
+		if(nnodes[i] == 0 && m.nelem > 0)
+			throw std::runtime_error("Mesh file: boundary faces must come before cells");
 	}
+	check_read(infile, m.nelem, 1, nelm, "cells");
 	/*std::cout << "UMesh2d: readGmsh2(): Done reading elms" << std::endl;
 	for(int i = 0; i < nelm; i++)
 		std::cout << nnodes[i] << " " << nfaels[i] << std::endl;*/
@@ -261,6 +299,7 @@ MeshData readGmsh2(const std::string mfile)
 	}
 	infile.close();
 
+	check_node_indices(m);
 	return m;
 }
 
@@ -271,16 +310,17 @@ MeshData readSU2(const std::string mfile)
 	std::string dum;
 	std::ifstream fin;
 	open_file_toRead(mfile, fin);
+	const long filesize = get_file_size(fin);
 
 	std::getline(fin, dum, '='); std::getline(fin,dum);
 	int ndim = std::stoi(dum);
-	if(ndim != NDIM)
-		std::cout << "readSU2: Mesh is not " << NDIM << "-dimensional!\n";
+	check_read(fin, ndim, NDIM, NDIM, "number of dimensions");
 
 	// read element node connectivity
 
 	std::getline(fin, dum, '='); std::getline(fin,dum);
 	m.nelem = std::stoi(dum);
+	check_read(fin, m.nelem, 1, filesize, "number of elements");
 	std::cout << "readSU2: Number of elements = " << m.nelem << std::endl;
 
 	// Let's just assume a hybrid grid with triangles and quads
@@ -303,13 +343,16 @@ MeshData readSU2(const std::string mfile)
 				m.nfael[iel] = 4;
 				break;
 			default:
-				std::cout << "readSU2: Unknown element type!!\n";
+				throw std::runtime_error("Mesh file: element type not recognized");
 		}
 
 		for(int i = 0; i < m.nnode[iel]; i++)
 			fin >> m.inpoel(iel,i);
+		for(int i = m.nnode[iel]; i < m.maxnnode; i++)
+			m.inpoel(iel,i) = -1;
 		fin >> ddum;
 	}
+	check_read(fin, m.nelem, 1, filesize, "elements");
 	// clear the newline
 	std::getline(fin,dum);
 
@@ -317,6 +360,7 @@ MeshData readSU2(const std::string mfile)
 
 	std::getline(fin, dum, '='); std::getline(fin,dum);
 	m.npoin = std::stoi(dum);
+	check_read(fin, m.npoin, 1, filesize, "number of points");
 #ifdef DEBUG
 	std::cout << "readSU2: Number of points = " << m.npoin << std::endl;
 #endif
@@ -329,6 +373,7 @@ MeshData readSU2(const std::string mfile)
 			fin >> m.coords(ip,j);
 		fin >> ddum;
 	}
+	check_read(fin, m.npoin, 1, filesize, "points");
 	// clear the newline
 	std::getline(fin,dum);
 
@@ -338,6 +383,7 @@ MeshData readSU2(const std::string mfile)
 
 	std::getline(fin, dum, '='); std::getline(fin,dum);
 	int nbmarkers = std::stoi(dum);
+	check_read(fin, nbmarkers, 0, filesize, "number of markers");
 #ifdef DEBUG
 	std::cout << "UMesh2dh: readSU2: Number of BC markers = " << nbmarkers << std::endl;
 #endif
@@ -347,6 +393,7 @@ MeshData readSU2(const std::string mfile)
 	std::vector<int> tags(nbmarkers);
 	std::vector<fint> numfacs(nbmarkers);
 	m.nbface = 0;
+	m.nnofa = 2;
 
 	for(int ib = 0; ib < nbmarkers; ib++)
 	{
@@ -354,10 +401,10 @@ MeshData readSU2(const std::string mfile)
 		tags[ib] = std::stoi(dum);
 		std::getline(fin, dum, '='); std::getline(fin,dum);
 		numfacs[ib] = std::stoi(dum);
+		check_read(fin, numfacs[ib], 0, filesize, "number of faces of a marker");
 		m.nbface += numfacs[ib];
 
 		bfacs[ib].resize(numfacs[ib]);
-		m.nnofa = 2;
 
 		for(fint iface = 0; iface < numfacs[ib]; iface++)
 		{
@@ -368,8 +415,10 @@ MeshData readSU2(const std::string mfile)
 				fin >> bfacs[ib][iface][inofa];
 		}
 
+		check_read(fin, m.nbface, 0, filesize, "boundary faces");
+
 		//clear newline, except the last one because it may not exist
-		if(ib < nbmarkers-1)
+		if(ib < nbmarkers-1 && numfacs[ib] > 0)
 			std::getline(fin,dum);
 	}
 
@@ -391,6 +440,7 @@ MeshData readSU2(const std::string mfile)
 		}
 	}
 
+	check_node_indices(m);
 	return m;
 }
 
-- 
2.43.0


From 3380a0eec7d4417b6da8695cb5d587ba86cf25f1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 42/49] fix: meshes whose boundary faces do not match the cells
 are refused

---
 src/mesh/mesh.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 2e54308..aca68e8 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -684,12 +684,19 @@ std::vector<std::pair<fint,EIndex>> UMesh<scalar,ndim>::compute_phyBFaceNeighbor
 			throw std::logic_error("More than one neighboring element found for bface "
 			                       + std::to_string(iface));
 		}
+		if(intersection.empty()) {
+			throw std::logic_error("No neighboring element found for bface "
+			                       + std::to_string(iface));
+		}
 
 		interiorelem[iface].first = intersection[0];
 
 		// find the EIndex of the face
 		interiorelem[iface].second = getFaceEIndex(true, iface, intersection[0]);
-		assert(interiorelem[iface].second >= 0);
+		if(interiorelem[iface].second < 0) {
+			throw std::logic_error("Bface " + std::to_string(iface)
+			                       + " is not a face of its neighboring element");
+		}
 	}
 
 	return interiorelem;
@@ -795,6 +802,13 @@ void UMesh<scalar,ndim>::compute_faceConnectivity()
 			intfac(iface,2+inode) = inpoel(inelem,getNodeEIndex(inelem, connface(icface,1), inode));
 	}
 
+	// every face of every cell must be either shared by two cells or a boundary face
+	for(fint ie = 0; ie < nelem; ie++)
+		for(EIndex in = 0; in < nfael[ie]; in++)
+			if(esuel(ie,in) < 0)
+				throw std::logic_error("No neighbour or boundary face found for face "
+				                       + std::to_string(in) + " of cell " + std::to_string(ie));
+
 	domFaceStart = nbface;
 	domFaceEnd = nbface + nconnface + ninface;
 	assert(domFaceEnd == naface);
-- 
2.43.0


From 1efdd6eaf6364dfa3b9ffbb7cd64a26ae7dc8cf1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 43/49] fix: faces of cells are enumerated by the number of
 faces, not of nodes

---
 src/mesh/mesh.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index aca68e8..0a85330 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -534,7 +534,7 @@ void UMesh<scalar,ndim>::compute_elementsSurroundingElements()
 			for(int j = 0; j < nverfa; j++)
 			{
 				// fine as long as operands of % are not negative
-				lpofai(i,j) = (i+j) % nnode[ielem];
+				lpofai(i,j) = (i+j) % nfael[ielem];
 			}
 		}
 
@@ -757,19 +757,19 @@ void UMesh<scalar,ndim>::compute_faceConnectivity()
 
 	for(fint ie = 0; ie < nelem; ie++)
 	{
-		for(EIndex in = 0; in < nnode[ie]; in++)
+		for(EIndex in = 0; in < nfael[ie]; in++)
 		{
 			const fint je = esuel(ie,in);
 			if(je > ie && je < nelem)
 			{
-				const EIndex in1 = (in+1)%nnode[ie];
+				const EIndex in1 = (in+1)%nfael[ie];
 				intfac(faceindex,0) = ie;
 				intfac(faceindex,1) = je;
 				intfac(faceindex,2) = inpoel.get(ie,in);
 				intfac(faceindex,3) = inpoel.get(ie,in1);
 
 				elemface(ie,in) = faceindex;
-				for(EIndex jnode = 0; jnode < nnode[je]; jnode++)
+				for(EIndex jnode = 0; jnode < nfael[je]; jnode++)
 					if(inpoel.get(ie,in1) == inpoel.get(je,jnode))
 						elemface(je,jnode) = faceindex;
 
-- 
2.43.0


From 77d0c7e43bf612114f08b0323c8b499fbd30f8ee Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 44/49] fix: Gmsh reader does not overflow on invalid node
 numbers

---
 src/mesh/meshreaders.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 4985860..7e4df4d 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -282,14 +282,14 @@ MeshData readGmsh2(const std::string mfile)
 	{
 		for(int j = 0; j < m.nnofa; j++)
 			// -1 to correct for the fact that our numbering starts from zero
-			m.bface(i,j) = elms(i,j)-1;
+			m.bface(i,j) = elms(i,j) > 0 ? elms(i,j)-1 : -1;
 		for(int j = m.nnofa; j < m.nnofa+m.nbtag; j++)
 			m.bface(i,j) = elms(i,j);
 	}
 	for(int i = 0; i < m.nelem; i++)
 	{
 		for(int j = 0; j < nnodes[i+m.nbface]; j++)
-			m.inpoel(i,j) = elms(i+m.nbface,j)-1;
+			m.inpoel(i,j) = elms(i+m.nbface,j) > 0 ? elms(i+m.nbface,j)-1 : -1;
 		for(int j = nnodes[i+m.nbface]; j < m.maxnnode; j++)
 			m.inpoel(i,j) = -1;
 		for(int j = 0; j < m.ndtag; j++)
-- 
2.43.0


From bc642215a57bfca65a842b301a0f02683f19e574 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 45/49] fix: meshes with points that do not belong to any cell
 are accepted in debug builds

---
 src/mesh/ameshutils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/ameshutils.cpp b/src/mesh/ameshutils.cpp
index 026304c..770842e 100644
--- a/src/mesh/ameshutils.cpp
+++ b/src/mesh/ameshutils.cpp
@@ -117,7 +117,8 @@ UMesh<freal,NDIM> constructMesh(const std::string mesh_path)
 
 #ifdef DEBUG
 	const int mpisize = get_mpi_size(PETSC_COMM_WORLD);
-	if(mpisize == 1) {
+	// Points that do not belong to any cell are not a part of the subdomain
+	if(mpisize == 1 && lm.gnpoin() == gm.gnpoin()) {
 		const std::array<bool,8> chk = compareMeshes(gm, lm);
 		for(int i = 0; i < 8; i++)
 			assert(chk[i]);
-- 
2.43.0


From d37849bac2b6357e7e5380b46983bd7a5fb9d512 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 46/49] fix: boundary markers of the mesh without a boundary
 condition raise an error

---
 src/spatial/flow_spatial.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index aaffe65..3b4c68c 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -19,6 +19,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <stdexcept>
 #include "physics/aphysics_defs.hpp"
 #include "physics/viscousphysics.hpp"
 #include "abctypemap.hpp"
@@ -52,6 +53,11 @@ FlowFV_base<scalar>::FlowFV_base(const UMesh<scalar,NDIM> *const mesh,
 	bcs {create_const_flowBCs<scalar>(pconf.bcconf, physics,uinf)}
 
 {
+	for(fint iface = m->gPhyBFaceStart(); iface < m->gPhyBFaceEnd(); iface++)
+		if(bcs.find(m->gbtags(iface,0)) == bcs.end())
+			throw std::runtime_error("No boundary condition for boundary marker "
+			                         + std::to_string(m->gbtags(iface,0)) + " of the mesh!");
+
 	std::cout << " FlowFV_base: Boundary conditions:\n";
 	for(auto it = pconfig.bcconf.begin(); it != pconfig.bcconf.end(); it++) {
 		std::cout << "  " << bcTypeMap.left.find(it->bc_type)->second << '\n';
-- 
2.43.0


From b1fab6fe915f7cbe2d15fc361b3d46c50bd4956b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 47/49] fix: mesh readers refuse cells with repeated nodes

---
 src/mesh/meshreaders.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 7e4df4d..211be4f 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -53,9 +53,13 @@ static void check_read(const std::ifstream& fin, const long num, const long lo,
 static void check_node_indices(const MeshData& m)
 {
 	for(fint i = 0; i < m.nelem; i++)
-		for(int j = 0; j < m.nnode[i]; j++)
+		for(int j = 0; j < m.nnode[i]; j++) {
 			if(m.inpoel.get(i,j) < 0 || m.inpoel.get(i,j) >= m.npoin)
 				throw std::runtime_error("Mesh file: invalid node in cell " + std::to_string(i));
+			for(int k = 0; k < j; k++)
+				if(m.inpoel.get(i,k) == m.inpoel.get(i,j))
+					throw std::runtime_error("Mesh file: repeated node in cell " + std::to_string(i));
+		}
 	for(fint i = 0; i < m.nbface; i++)
 		for(int j = 0; j < m.nnofa; j++)
 			if(m.bface.get(i,j) < 0 || m.bface.get(i,j) >= m.npoin)
-- 
2.43.0


From 3daf965ee8642a9a1ccf83fc75adf051e944ffab Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 48/49] fix: AUSM+ has no Jacobian: fail instead of leaving it
 uninitialised

---
 src/spatial/anumericalflux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/anumericalflux.cpp b/src/spatial/anumericalflux.cpp
index 1f7cf06..7c98775 100644
--- a/src/spatial/anumericalflux.cpp
+++ b/src/spatial/anumericalflux.cpp
@@ -556,7 +556,7 @@ template <typename scalar, typename j_real>
 void AUSMPlusFlux<scalar,j_real>::get_jacobian(const j_real *const ul, const j_real *const ur,
 		const j_real* const n, j_real *const dfdl, j_real *const dfdr) const
 {
-	std::cout << " ! AUSMPlusFlux: Not implemented!\n";
+	throw " ! AUSMPlusFlux: Not implemented!";
 }
 
 template <typename scalar, typename j_real>
-- 
2.43.0


From 30ed886b5e0e4fdfc0dce2c2855a5ad0e3319d74 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 49/49] fix: no uninitialised record or division by zero steps
 when a steady solve has nothing to do

---
 src/ode/aodesolver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index c4eb5d2..3a7eac8 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -168,7 +168,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 	std::cout << " Starting CFL = " << config.cflinit << std::endl;
 	const freal curCFL = config.cflinit;  // constant for the explicit solver
 
-	SteadyStepMonitor convstep;
+	SteadyStepMonitor convstep {};
 	if(mpirank == 0)
 		writeConvergenceHistoryHeader(std::cout);
 
@@ -408,7 +408,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	
 	double linwtime = 0, linctime = 0;
 
-	SteadyStepMonitor convline;
+	SteadyStepMonitor convline {};
 	if(mpirank == 0)
 		writeConvergenceHistoryHeader(std::cout);
 		
@@ -558,7 +558,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	double finalctime = (double)clock() / (double)CLOCKS_PER_SEC;
 	tdata.ode_walltime += (finalwtime-initialwtime); 
 	tdata.ode_cputime += (finalctime-initialctime);
-	tdata.avg_lin_iters = (int) (tdata.total_lin_iters / (double)step);
+	tdata.avg_lin_iters = step > 0 ? (int) (tdata.total_lin_iters / (double)step) : 0;
 	tdata.num_timesteps = step;
 
 	if(mpirank == 0) {
-- 
2.43.0

