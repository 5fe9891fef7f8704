From bc542761bf60476f49fcda3d60c53144448b13a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 01/63] fix: model time follows the reduced step when safe mode
 redoes a step

---
 MDLIB/Main_DOODZ.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 43d9c60..dc5df65 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -816,7 +816,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     printf( "\e[1;31mReducing the timestep, and restart the iterations cycle...\e[m\n");
                     printf( "Before reduction: input.model.dt =, %2.2e\n", input.model.dt* input.scaling.t);
                     // ----------------------
+                    input.model.time -= input.model.dt; // the step is redone from its start: time must follow the reduced step
                     input.model.dt /= input.model.safe_dt_div;
+                    input.model.time += input.model.dt;
                     printf( "Timestep divided by %2.2f => NEW CURRENT input.model.dt =, %2.2e\n", input.model.safe_dt_div, input.model.dt* input.scaling.t);
                     Nmodel.stagnated = 0;
                     // ----------------------
-- 
2.43.0


From 0202d9c20364d0c809484c3f3305cf27b5f6f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 02/63] fix: clean-up removes the old restart file instead of
 renaming it to a step not written yet

---
 MDLIB/InputOutput.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 80d518f..1733d2b 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -122,19 +122,15 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void DeletePreviousBreakpoint( int step, int writer_step ) {
-    char *name, *command, *new_name;
+    char *name;
     int success;
     if ((step- 2*writer_step)>1) {
-        asprintf(&new_name, "Breakpoint%05d.dat", step- 0*writer_step);
+        // Remove the file: it must never carry the name of a step it does not hold
         asprintf(&name,     "Breakpoint%05d.dat", step- 2*writer_step);
-        asprintf(&command, "mv %s %s", name, new_name );
-        success = system( command );
-        printf("File %s replaced by %s\n", name, new_name);
-        if ( success!=-1 ) printf("File %s was successfully renamed\n", name);
-        else printf("File %s was not successfully renamed\n", name);
+        success = remove( name );
+        if ( success==0 ) printf("File %s was successfully removed\n", name);
+        else printf("File %s was not removed\n", name);
         free(name);
-        free(new_name);
-        free(command);
     }
 }
 
-- 
2.43.0


From 11e5aa5c4c856731e7ed3252c7e7b38c0dfd1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 03/63] fix: a missing restart file ends the run with the error
 message instead of a crash

---
 MDLIB/InputOutput.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 1733d2b..35012cf 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -155,7 +155,6 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     file = fopen(name, "rb");
     if ( file == NULL ) {
        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-       fclose(file);
        free(name);
        exit(1);
     }
-- 
2.43.0


From 99acbfe61f681591d1e215dbfb958b10c44c83a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 04/63] fix: restart files appear complete or not at all
 (written aside, then renamed)

---
 MDLIB/InputOutput.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 35012cf..e4b8e74 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -496,7 +496,7 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
 
 void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_chain, markers *topo_chain_ini, params model, surface *topo, surface* topo_ini, scale scaling ) {
 
-    char *name;
+    char *name, *tmp_name;
     int s1=sizeof(int), s2=sizeof(double), s3=sizeof(DoodzFP), s4=sizeof(char);
     int k, l, Nx=model.Nx, Nz=model.Nz, c;
     int Ncx = Nx-1, Ncz = Nz-1;
@@ -662,11 +662,13 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     if( model.delete_breakpoints == -1 ) asprintf(&name, "BreakpointXXXXX.dat");
     else asprintf(&name, "Breakpoint%05d.dat", model.step);
 
-    file = fopen(name, "wb");
+    // Write under a temporary name: an interrupted write must not destroy the restart file already there
+    asprintf(&tmp_name, "%s.tmp", name);
+    file = fopen(tmp_name, "wb");
     if ( file == NULL ) {
-        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
+        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", tmp_name);
         free(name);
-        fclose(file);
+        free(tmp_name);
         exit(1);
     }
     fwrite( &s1, 1, 1, file);
@@ -839,7 +841,9 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     fwrite( mesh->Eii_mean_time  , s3,   model.Nt+1 ,   file );
 
     fclose(file);
+    rename(tmp_name, name);
     free(name);
+    free(tmp_name);
 
     //---------------------------------------------------------------------------------------------------------//
 
-- 
2.43.0


From 3b4998e6212eb958d8a8c335ef9e8eb23c5a2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:29 +0000
Subject: [PATCH 05/63] fix: stress boundary nodes read cells beyond the
 boundary in the momentum residual

---
 MDLIB/StokesAssemblyDecoupled.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 71913e2..dbfe44b 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -96,6 +96,10 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
         iVzNW = c3+nxvz-2;
     }
 
+    // Stress BC: there is no cell beyond the boundary
+    if (SxxBCW == 1.0) iPrW = iPrE;
+    if (SxxBCE == 1.0) iPrE = iPrW;
+
     // Variable PDE coefficient
     const double D11E = mesh->D11_n[iPrE];
     const double D11W = mesh->D11_n[iPrW];
@@ -590,6 +594,10 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
     if ( BCv_t[iVzW] == -12 && ix==1      ) iVzW = c3+nxvz-3;
     if ( BCv_t[iVzE] == -12 && ix==nxvz-2 ) iVzE = c3-nxvz+3;
 
+    // Stress BC: there is no cell beyond the boundary
+    if (SzzBCS == 1.0) iPrS = iPrN;
+    if (SzzBCN == 1.0) iPrN = iPrS;
+
     // Linear equation coefficient
     double vS=0.0, vN=0.0, vW=0.0, vE=0.0, vC=0.0, uSW=0.0, uSE=0.0, uNW=0.0, uNE=0.0, pN=0.0, pS=0.0;
 
-- 
2.43.0


From 0cbeedd85ddbad690ab2ae0f4fa47b059baf8d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:21 +0000
Subject: [PATCH 06/63] fix: reseeding (mode 1) used the per-cell marker counts
 after freeing them

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 1aabd8c..8c1b71b 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2452,7 +2452,6 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
                 part_count[kc] += 1;
             }
         }
-        DoodzFree(part_count);
 
         // Identify cells that need a new particle
         int nb_new_parts = 0, new_ind;
@@ -2573,6 +2572,7 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
             DoodzFree(part_cell[kc]);
         }
         DoodzFree(part_cell);
+        DoodzFree(part_count);
     }
     // Infos
     MinMaxArrayI(particles->phase,          1, particles->Nb_part, "phase       ");
-- 
2.43.0


From 2c367e53052415b90db94343ca76f7d6a7e862ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:21 +0000
Subject: [PATCH 07/63] fix: inflow and reseeding wrote beyond the marker
 arrays when capacity was reached

---
 MDLIB/ParticleRoutines.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 8c1b71b..613132e 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -633,6 +633,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(190);
                     }
 
                     // Add particles
@@ -660,6 +661,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(190);
                     }
                     
                     // Add particles
@@ -3017,9 +3019,9 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
         // Re-seeding on a double resolution grid
         if (reseed_markers==1) {
 
-            newi[ith]   = DoodzCalloc( npart[ith]  , sizeof(int));
-            newx[ith]   = DoodzCalloc( npart[ith]  , sizeof(double));
-            newz[ith]   = DoodzCalloc( npart[ith]  , sizeof(double));
+            newi[ith]   = DoodzCalloc( 4*ncx[ith]*Ncz, sizeof(int)); // at most one new marker per fine cell
+            newx[ith]   = DoodzCalloc( 4*ncx[ith]*Ncz, sizeof(double)); // at most one new marker per fine cell
+            newz[ith]   = DoodzCalloc( 4*ncx[ith]*Ncz, sizeof(double)); // at most one new marker per fine cell
 
             // Count number of particle per re-seeding volume
             for (ip=0; ip<npart[ith]; ip++) {
@@ -3411,7 +3413,7 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
                     nb_new[ith]++;
                 }
                 // Security check
-                if (k>particles->Nb_part_max) {
+                if (k>=particles->Nb_part_max) {
                     printf ("Maximum number of particles exceeded!\n Exiting!\n");
                     exit(1);
                 }
-- 
2.43.0


From 73b404575d3b5ffba0e49a3b6d2e1d7c1f8f96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:21 +0000
Subject: [PATCH 08/63] fix: reseeding ignored neighbours further away than the
 width of the model

---
 MDLIB/ParticleRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 613132e..b1207f6 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -954,7 +954,7 @@ int FindClosestPhase2( markers* particles, double *newx, double* newz, int ic, i
     double dst, min_dst;
     int ind, min_index=ind_list[0];
 
-    min_dst = (model.xmax-model.xmin);//*sqrt( pow( mesh.dx, 2.0) + pow( mesh.dz, 2.0) );
+    min_dst = INFINITY;
 
     if (sedim==0) {
 
@@ -2537,7 +2537,7 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
                         particles->z[new_ind]          = new_z;
                         particles->generation[new_ind] = 1;
 
-                        double distance, closest_distance = model.xmax - model.xmin;
+                        double distance, closest_distance = INFINITY;
                         int ind, closest_neighbour = neighbours[0];
 
                         // Loop on the particles inside the current cell, find which one is the closest to the newly created one.
-- 
2.43.0


From 1315c17a68cc484203b1d961d6a9d3fd91b6a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:21 +0000
Subject: [PATCH 09/63] fix: new markers started without the density of the
 marker they copy

---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index b1207f6..d419a2d 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -691,6 +691,7 @@ void AssignMarkerProperties (markers* particles, int new_ind, int min_index, par
     
     particles->phase[new_ind]         = particles->phase[min_index];
     particles->dual[new_ind]          = particles->dual[min_index];
+    particles->rho[new_ind]           = particles->rho[min_index];
     if (particles->phase[min_index]==-1) {printf("New particle is has phase -1, error! (AssignMarkerProperties)\n" ); exit(99);}
     particles->Vx[new_ind]            = particles->Vx[min_index];
     particles->Vz[new_ind]            = particles->Vz[min_index];
@@ -762,6 +763,7 @@ void AssignMarkerPropertiesInflow (markers* particles, int new_ind, int min_inde
     params *model = &(input->model);  
     particles->phase[new_ind]         = particles->phase[min_index];
     particles->dual[new_ind]          = particles->dual[min_index];
+    particles->rho[new_ind]           = particles->rho[min_index];
     if (particles->phase[min_index]==-1) {printf("New particle is has phase -1, error! (AssignMarkerProperties)\n" ); exit(99);}
     particles->Vx[new_ind]            = particles->Vx[min_index];
     particles->Vz[new_ind]            = particles->Vz[min_index];
-- 
2.43.0


From ce8b340f80936a6ab2735b1aeee960ed8bcffbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:43 +0000
Subject: [PATCH 10/63] fix: stop on phase numbers that do not exist
 (ValidatePhase accepted Nb_phases and negative numbers)

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 70f1bf2..c87cd11 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -32,7 +32,7 @@ void BuildInitialTopography(BuildInitialTopography_ff buildInitialTopography, Md
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void ValidatePhase(int phaseId, int phasesCount) {
-  if (phaseId > phasesCount) {
+  if (phaseId < 0 || phaseId >= phasesCount) {
     printf("Lazy bastard! Fix your particle phase ID! \n");
     exit(144);
   }
-- 
2.43.0


From ea02b248204d88aa89c15d6a8faad37dff240015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:13 +0000
Subject: [PATCH 11/63] fix: surface density correction reads one row beyond
 the grid when material reaches the top row

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d5593da..b79ec8b 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -854,7 +854,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(ncx);
             mesh->FreeSurfW_n[c1] = 1.0;
             
-            if (mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
+            if (j<ncz-1 && mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
                 h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 h0               = fabs(h - mesh->zc_coord[j]);
                 // double rho_ini = mesh->rho_n[c1];
@@ -877,7 +877,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(nx);
             mesh->FreeSurfW_s[c1] = 1.0;
 
-            if (mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
+            if (j<nz-1 && mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
                 if (i==0)    h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 if (i==nx-1) h  = topo.b[nx-2] + topo.a[nx-2]*mesh->xc_coord[nx-2];
                 if (i>0 && i<nx-1) {
-- 
2.43.0


From 1800119d7ec138f6c336dc7e38b8e1c37da9500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:39 +0000
Subject: [PATCH 12/63] fix: line search reads the residuals at an
 uninitialised index when continuity never improves

---
 MDLIB/StokesRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/StokesRoutines.c b/MDLIB/StokesRoutines.c
index 32df1f2..9b6ecfd 100755
--- a/MDLIB/StokesRoutines.c
+++ b/MDLIB/StokesRoutines.c
@@ -672,6 +672,7 @@ double LineSearchDecoupled( SparseMat *Stokes, SparseMat *StokesA, SparseMat *St
         ixz    = 0;
         ix     = 0;
         iz     = 0;
+        ip     = 0;
         ixzp   = 0;
         for( k=1; k<ntry; k++ ) {
             fxzp = sqrt( pow( rx[k],2 ) + pow( rz[k],2 ) + pow( rp[k],2 ) );
-- 
2.43.0


From 94b53958c2737d58305534536fc70e18acbe3ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:44 +0000
Subject: [PATCH 13/63] fix: topography was diffused with half the prescribed
 diffusivity (backward sweep never executed)

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index b79ec8b..fadb545 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -952,7 +952,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             for (i=1; i<size-1; i++) {
                 correct[i]  = 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
-            for (i=size-2; i==1; i--) {
+            for (i=size-2; i>=1; i--) {
                 correct[i] += 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
             for (i=1; i<size-1; i++) {
-- 
2.43.0


From d6b6f15fee4f4cf63a35e98c71d0460f23c29571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:44 +0000
Subject: [PATCH 14/63] fix: new sediment markers started with a singular
 deformation gradient

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index fadb545..f6bea63 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -160,8 +160,8 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 if (finite_strain==1) {
                     particles->Fxx[new_ind]           = 1.0;
                     particles->Fxz[new_ind]           = 0.0;
-                    particles->Fzx[new_ind]           = 1.0;
-                    particles->Fzz[new_ind]           = 0.0;
+                    particles->Fzx[new_ind]           = 0.0;
+                    particles->Fzz[new_ind]           = 1.0;
                 }
                 
                 if (track_T_P_x_z==1) {
-- 
2.43.0


From 71e6bf89105342b66a477cf606a1b96da63856de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:44 +0000
Subject: [PATCH 15/63] fix: sedimentation wrote markers beyond the allocated
 capacity

---
 MDLIB/FreeSurface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index f6bea63..c044805 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -130,6 +130,11 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
             hm   = (topo->b[in]  + topo->a[in]  * ( xnew ));
             
             if ( hm > hm0 ) { //;# && (hm-hm0)>1e-6
+
+                if ( new_ind >= particles->Nb_part_max ) {
+                    printf("The max. number of particles (%d) is reached while adding sediment markers\n", particles->Nb_part_max);
+                    exit(44);
+                }
                 
                 // Compute new altitude of the marker right in between the new and old position of the free surface
                 znew                      = 0.5*(hm+hm0);
-- 
2.43.0


From 4a148669bb4f6d8926487d543b6e3ba3b9cd657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:44 +0000
Subject: [PATCH 16/63] fix: recycled surface markers stayed inactive, so
 columns refilled with them had no surface

---
 MDLIB/FreeSurface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index c044805..d17ed05 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -262,6 +262,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     topo_chain->Vz[NewInd] = 0.5*(topo->vz[in] + topo->vz[in+1]);
                     topo_chain->z[NewInd]  = topo->b[in]  + topo->a[in]  * topo_chain->x[NewInd];
                     topo_chain->z0[NewInd] = topo->b0[in] + topo->a0[in] * topo_chain->x[NewInd];
+                    topo_chain->phase[NewInd] = 0;
 
                     // Add one particle on the EAST side of the fine column
                     if (recycle==0) NewInd                = topo_chain->Nb_part;
@@ -281,6 +282,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     topo_chain->Vz[NewInd] = 0.5*(topo->vz[in+1] + topo->vz[in+2]);
                     topo_chain->z[NewInd]  = topo->b[in]  + topo->a[in]  * topo_chain->x[NewInd];
                     topo_chain->z0[NewInd] = topo->b0[in] + topo->a0[in] * topo_chain->x[NewInd];
+                    topo_chain->phase[NewInd] = 0;
                 }
                 else {
                     printf("The max. number of topographic particles (currently %d) needs to be increased (number of particles %d)\n", topo_chain->Nb_part_max, topo_chain->Nb_part);
-- 
2.43.0


From 4f0aba6fa8961d68849452a396533438b4fd9127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:44 +0000
Subject: [PATCH 17/63] fix: surface motion of all but the last advection
 substep was lost (incremental topography update)

---
 MDLIB/Main_DOODZ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index dc5df65..b88925c 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1050,6 +1050,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                 }
 
                 if (input.model.free_surface == 1 ) {
+                    // The increments of this substep start from the current topography
+                    if (isub>0) ArrayEqualArray(     topo.height0,     topo.height, mesh.Nx );
+                    if (isub>0) ArrayEqualArray( topo_ini.height0, topo_ini.height, mesh.Nx );
                     // Advect free surface with RK2
                     RogerGuntherII( &topo_chain, input.model, mesh, 1, input.scaling );
                     RogerGuntherII( &topo_chain_ini, input.model, mesh, 1, input.scaling );
-- 
2.43.0


From e14e61acc7a333f9d66bdbb502d065cd00593e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:46 +0000
Subject: [PATCH 18/63] fix: zero-mean topography averaged unused marker slots
 and was undone when markers were put back on the surface

---
 MDLIB/FreeSurface.c | 4 ++--
 MDLIB/Main_DOODZ.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d17ed05..712cfb2 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -1085,14 +1085,14 @@ void KeepZeroMeanTopo(params *model, surface *topo, markers *topo_chain ) {
     }
     mean_z = 0.0;
     int nmark = 0;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         if (topo_chain->phase[i] > -1) {
         mean_z += topo_chain->z[i];
         nmark  ++;
         }
     }
     mean_z /= nmark;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         topo_chain->z[i] -= mean_z;
     }
 }
\ No newline at end of file
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index b88925c..133652c 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1105,13 +1105,13 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     // Diffuse topography
                     if ( input.model.surface_processes >= 1 )  DiffuseAlongTopography( &mesh, input.model, input.scaling, topo.height, topo.height, mesh.Nx, 0.0, input.model.dt );
 
+                    if ( input.model.zero_mean_topo == 1 ) KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
+
                     // Marker chain polynomial fit
                     MarkerChainPolyFit( &topo,     &topo_chain, input.model, mesh );
                     CorrectTopoIni( &particles, input.materials, &topo_chain_ini, &topo, input.model, input.scaling, &mesh);
                     MarkerChainPolyFit( &topo_ini, &topo_chain_ini, input.model, mesh );
 
-                    if ( input.model.zero_mean_topo == 1 ) KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
-
                     // Sedimentation
                     if ( input.model.surface_processes == 2 ) {
                         AddPartSed( &particles, input.materials, &topo_chain, &topo, input.model, input.scaling, &mesh);
-- 
2.43.0


From 133fa4b3d004d27f4af71b57f5535b45e2286006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:18 +0000
Subject: [PATCH 19/63] fix: a surface marker exactly on the west wall was
 projected outside the arrays

---
 MDLIB/FreeSurface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 712cfb2..b668ca9 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -335,6 +335,8 @@ void InterpTopoPart2Grid( surface *topo, markers *topo_chain, params model, grid
         if ( topo_chain->phase[k] != -1 ) {
             distance  = ( topo_chain->x[k] - mesh.xc_coord[0] );
             in        = ceil( (distance/dx) + 0.5) - 1;
+            if (in<0   ) in = 0;
+            if (in>Nx-2) in = Nx-2;
             dxm       = 2.0*fabs( mesh.xc_coord[in] - topo_chain->x[k]);
             if (model.topo_update==0) mark_val  = topo_chain->z[k];
             if (model.topo_update==1) mark_val  = topo_chain->z[k] - topo_chain->z0[k];
-- 
2.43.0


From 8455e03129012809c122ce682feece547b695ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:34 +0000
Subject: [PATCH 20/63] fix: heat flow through the bottom was divided by the
 cell width instead of its height

---
 MDLIB/ThermalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 71bf0fd..3f886b7 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -298,7 +298,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
 
                         // Bottom flux
                         if (l==0 && mesh->BCT_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                            bbc[eqn] += -1.0/mesh->dx * mesh->BCT_exp.val[c0-(ncx+2)];
+                            bbc[eqn] += -1.0/mesh->dz * mesh->BCT_exp.val[c0-(ncx+2)];
                         }
 
                         if (k==0 && mesh->BCT_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From b65421e62b085e7c99724e1a29b86d3c8318ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:34 +0000
Subject: [PATCH 21/63] fix: periodic thermal coupling used the equation of an
 air cell across the boundary

---
 MDLIB/ThermalRoutines.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 3f886b7..7c029b4 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -77,7 +77,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
     int *Ic, *J;      // lines, colums
     int k, l, c0, c1, c2, c3, nx, nz, nxvz, nzvx, ncx, ncz;
     double AW, AE, AS, AN, rhoCp;
-    int *eqn_t, nnzc, eqn;
+    int *eqn_t, nnzc, eqn, cW, cE;
     double val, theta=1.0;
     double dW = 0.0, dUt = 0.0, dUe = 0.0;
     double Wtot, Wth, Wel;
@@ -200,6 +200,10 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
                         AS    = mesh->kz[c3]       ;
                         AN    = mesh->kz[c3+nxvz]  ;
 
+                        // Cells on the W and E sides (across the boundary if periodic)
+                        cW = (k==0     && mesh->BCT_exp.type[c0-1]==-2) ? c0+(ncx-1) : c0-1;
+                        cE = (k==ncx-1 && mesh->BCT_exp.type[c0+1]==-2) ? c0-(ncx-1) : c0+1;
+
                         // Contribution to S dof
                         if ( l>0 ) {
                             if (mesh->BCT_exp.type[c0-(ncx+2)] != 30 ) {
@@ -209,7 +213,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
                         }
 
                         // Periodic on the E side
-                        if (mesh->BCT_exp.type[c0+1]==-2 && k==ncx-1 ) {
+                        if (mesh->BCT_exp.type[c0+1]==-2 && k==ncx-1 && mesh->BCT_exp.type[cE] != 30 ) {
                             val = -theta*AE*one_dx_dx;
                             AddCoeffThermal( J, A, eqn, eqn_t[c2-(ncx-1)],   &nnzc,  val );
                         }
@@ -249,7 +253,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
 
                         // Flux from sides: WEST
                         if ( (k>0) || (k==0 && mesh->BCT_exp.type[c0-1]==-2) ) {
-                            if (mesh->BCT_exp.type[c0-1] != 30 ) {
+                            if (mesh->BCT_exp.type[cW] != 30 ) {
                                 val +=  AW*one_dx_dx;
                             }
                             // Dirichlet contribution (free surface)
@@ -263,7 +267,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
 
                         // Flux from sides: EAST
                         if ( (k<ncx-1) || (k==ncx-1 && mesh->BCT_exp.type[c0+1]==-2) ) {
-                            if (mesh->BCT_exp.type[c0+1] != 30 ) {
+                            if (mesh->BCT_exp.type[cE] != 30 ) {
                                 val +=  AE*one_dx_dx;
                             }
                             // Dirichlet contribution (free surface)
@@ -350,7 +354,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
                         }
 
                         // Periodic on W side
-                        if (mesh->BCT_exp.type[c0-1]==-2 && k==0 ) {
+                        if (mesh->BCT_exp.type[c0-1]==-2 && k==0 && mesh->BCT_exp.type[cW] != 30 ) {
                             val = -theta*AW*one_dx_dx;
                             AddCoeffThermal( J, A, eqn, eqn_t[c2+(ncx-1)],   &nnzc,  val );
                         }
-- 
2.43.0


From f15f878855293c8385f74d1229826c2cd43c0567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:27 +0000
Subject: [PATCH 22/63] fix: the two periodic copies of a Vx node received
 different marker averages

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index d419a2d..dd64309 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2307,7 +2307,7 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
     }
 
     // Make periodic
-    if (centroid==0 && prop==0 && model->periodic_x==1) {
+    if ((centroid==0 || centroid==-1) && prop==0 && model->periodic_x==1) {
         double av;
         for( int l=0; l<Nz; l++) {
             int c1 = l*Nx + Nx-1;
-- 
2.43.0


From 1d68e781bf8b65b67a286575a59b75945d874de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:01 +0000
Subject: [PATCH 23/63] fix: transmutation skipped the last marker and looked
 up materials for inactive markers

---
 MDLIB/ParticleRoutines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index dd64309..ef305df 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3574,8 +3574,9 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
 void TransmutateMarkers(markers *particles, mat_prop *materials, double scaling_T) {
   int transmutated_particles = 0;
 #pragma omp parallel for reduction(+:transmutated_particles) shared(particles)
-  for (int k=0; k<particles->Nb_part-1; k++) {
+  for (int k=0; k<particles->Nb_part; k++) {
     const int phase = particles->phase[k];
+    if (phase == -1) continue; // inactive marker
     const double temperature = particles->T[k];
     const double transmutation = materials->transmutation[phase];
 
-- 
2.43.0


From 0876d01a282fb869e152cafb8e3593fa89f98f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 24/63] fix: accumulated strain was extrapolated next to walls
 and could decrease

---
 MDLIB/RheologyParticles.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 34790b1..58b214c 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -265,6 +265,10 @@ void AccumulatedStrainII( grid* mesh, scale scaling, params model, markers* part
             
             dxm = (particles->x[k] - X_vect[j_part]);
             dzm = (particles->z[k] - Z_vect[i_part]);
+
+            // No extrapolation beyond the outermost cell centres (increments would become negative)
+            dxm = fmin(fmax(dxm, 0.0), dx);
+            dzm = fmin(fmax(dzm, 0.0), dz);
             
             iSW = j_part+i_part*Nx;
             iSE = j_part+i_part*Nx+1;
-- 
2.43.0


From d109832c32be24f9b7ebd7f8543bd0eb6c986314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 25/63] fix: marker stresses never rotated: vorticity was
 interpolated from markers to grid

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 58b214c..5ced6d8 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1627,7 +1627,7 @@ firstprivate( model )
         if (model->elastic==1) { 
 
             double *wxzm   = DoodzCalloc(particles->Nb_part, sizeof(DoodzFP));
-            P2Mastah( model, *particles, wxzm,     mesh, mesh->wxz,   mesh->BCg.type,  1, 0, interp, vert, model->interp_stencil);
+            Interp_Grid2P( *particles, wxzm, mesh, mesh->wxz, mesh->xg_coord, mesh->zg_coord, mesh->Nx, mesh->Nz, mesh->BCg.type );
 
 #pragma omp parallel for shared( particles, wxzm ) firstprivate( dt, model ) private( k, angle, txx, tzz, txz )
             for ( k=0; k<particles->Nb_part; k++ ) {
-- 
2.43.0


From 44cfe1bcc52eb8672ed2c4c74543139fadbeb84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 26/63] fix: analytical stress rotation turned stresses against
 the material rotation

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 5ced6d8..f1e64e8 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1641,7 +1641,7 @@ firstprivate( model )
                         particles->sxz[k]  -=  dt*(tzz-txx)*wxzm[k];
                     }
                     if (model->stress_rotation==2) { // Analytical rotation
-                        double angle = dt*wxzm[k];
+                        double angle = -dt*wxzm[k]; // wxz is counter-clockwise positive, the rotation below clockwise
                         particles->sxxd[k] =  ( txx*cos(angle) + txz*sin(angle))*cos(angle) + ( txz*cos(angle) + tzz*sin(angle))*sin(angle);
                         particles->szzd[k] = -(-txx*sin(angle) + txz*cos(angle))*sin(angle) + (-txz*sin(angle) + tzz*cos(angle))*cos(angle);
                         particles->sxz[k]  = -( txx*cos(angle) + txz*sin(angle))*sin(angle) + ( txz*cos(angle) + tzz*sin(angle))*cos(angle);
-- 
2.43.0


From 282ac6d60178b7e7f37403272174b313f74fa918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:56 +0000
Subject: [PATCH 27/63] fix: lithostatic pressure left out the weight of the
 top row of cells

---
 MDLIB/GridRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/GridRoutines.c b/MDLIB/GridRoutines.c
index 70996b9..36cbdbc 100755
--- a/MDLIB/GridRoutines.c
+++ b/MDLIB/GridRoutines.c
@@ -430,7 +430,7 @@ void ComputeLithostaticPressure( grid *mesh, params *model, double RHO_REF, scal
     Initialise1DArrayDouble( mesh->p_lith,  (mesh->Nx-1)*(mesh->Nz-1), 0.0 );
     
     // Cell center arrays
-    for( l=ncz-2; l>=0; l--) {
+    for( l=ncz-1; l>=0; l--) {
         for( k=0; k<ncx; k++) {
 
             // Initialise vertices variables
@@ -444,7 +444,7 @@ void ComputeLithostaticPressure( grid *mesh, params *model, double RHO_REF, scal
 
             // Initialise pressure variables : Compute lithostatic pressure
             if ( mesh->BCp.type[c] != 30 && mesh->BCp.type[c] != 31 ) { // First row (surface)
-                mesh->p_lith[c]  = mesh->p_lith[c+ncx] -  model->gz * mesh->dz * rho_eff;
+                mesh->p_lith[c]  = ( l < ncz-1 ? mesh->p_lith[c+ncx] : 0.0 ) -  model->gz * mesh->dz * rho_eff;
 
             }
         }
-- 
2.43.0


From cfeae77d3a1f342985bd8a219e8723bf9370459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:28 +0000
Subject: [PATCH 28/63] fix: surface markers that had left the model came back
 on restart

---
 MDLIB/InputOutput.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index e4b8e74..85ad889 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -452,12 +452,15 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
             topo_chain->z[k]  /= scaling.L;
             topo_chain->Vx[k] /= scaling.V;
             topo_chain->Vz[k] /= scaling.V;
+            // Surface markers that left the model stay inactive
+            if ( topo_chain->x[k]>model->xmax || topo_chain->x[k]<model->xmin ) topo_chain->phase[k] = -1;
         }
         for (k=0; k<topo_chain_ini->Nb_part; k++) {
             topo_chain_ini->x[k] /= scaling.L;
             topo_chain_ini->z[k] /= scaling.L;
             topo_chain_ini->Vx[k] /= scaling.V;
             topo_chain_ini->Vz[k] /= scaling.V;
+            if ( topo_chain_ini->x[k]>model->xmax || topo_chain_ini->x[k]<model->xmin ) topo_chain_ini->phase[k] = -1;
         }
         //    }
 
-- 
2.43.0


From e8d436c34d06b00b90f272d4dac51e2f16b3993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:52 +0000
Subject: [PATCH 29/63] fix: restarting with another Nt scrambled the time
 series

---
 MDLIB/InputOutput.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 85ad889..84ae8d0 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -312,23 +312,21 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         fread( mesh->nb_part_cell, s1,  Ncx*Ncz,   file );
         fread( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
-        // Timeseries
-        fread( mesh->Time_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Short_time     , s3,   model->Nt+1 ,   file );
-        fread( mesh->Work_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uthermal_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uelastic_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->T_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->P_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->szzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Tii_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->exxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->ezzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->exz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Eii_mean_time  , s3,   model->Nt+1 ,   file );
-
+        // Timeseries (their length is the Nt of the run that wrote the file, which may differ from the present one)
+        double *series[] = { mesh->Time_time, mesh->Short_time, mesh->Work_time,
+                              mesh->Uthermal_time, mesh->Uelastic_time, mesh->T_mean_time,
+                              mesh->P_mean_time, mesh->sxxd_mean_time, mesh->szzd_mean_time,
+                              mesh->sxz_mean_time, mesh->Tii_mean_time, mesh->exxd_mean_time,
+                              mesh->ezzd_mean_time, mesh->exz_mean_time, mesh->Eii_mean_time };
+        const int nseries = sizeof(series)/sizeof(series[0]);
+        const long start  = ftell(file);
+        fseek( file, 0, SEEK_END );
+        const int  stored = (ftell(file) - start) / (nseries*s3);
+        const int  common = stored < model->Nt+1 ? stored : model->Nt+1;
+        for ( k=0; k<nseries; k++ ) {
+            fseek( file, start + (long)k*stored*s3, SEEK_SET );
+            fread( series[k], s3, common, file );
+        }
 
     fclose(file);
     free(name);
-- 
2.43.0


From aa4526311e46bd3fe7631dd37ff3f5220ab45f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 30/63] fix: old stresses left in the air leaked into the rock
 next to the surface

---
 MDLIB/Main_DOODZ.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 133652c..9f1bb70 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -501,7 +501,10 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         // Elasticity - interpolate advected/rotated stresses
         if  (input.model.elastic == 1 ) {
 
-            // Get old stresses from particles
+            // Get old stresses from particles (none in the air, where values of a step with rock would remain)
+            Initialise1DArrayDouble( mesh.sxxd0, (mesh.Nx-1)*(mesh.Nz-1), 0.0 );
+            Initialise1DArrayDouble( mesh.szzd0, (mesh.Nx-1)*(mesh.Nz-1), 0.0 );
+            Initialise1DArrayDouble( mesh.sxz0,   mesh.Nx   * mesh.Nz,    0.0 );
             P2Mastah( &input.model, particles, particles.sxxd,    &mesh, mesh.sxxd0, mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
             P2Mastah( &input.model, particles, particles.szzd,    &mesh, mesh.szzd0, mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
             P2Mastah( &input.model, particles, particles.sxz,     &mesh, mesh.sxz0,  mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
-- 
2.43.0


From 0dce24f3ff7a84740ac8d28f7bb622d559082ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 31/63] fix: vorticity left in the air rotated the stress of
 markers next to the surface

---
 MDLIB/RheologyDensity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 25405df..7c5056e 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1710,6 +1710,7 @@ void StrainRateComponents( grid* mesh, scale scaling, params* model ) {
     c2 = k  + l*(Nx+1);
 
     mesh->exz[c1] = 0.0;
+    mesh->wxz[c1] = 0.0;
 
     if ( mesh->BCg.type[c1] != 30 ) {
       //            // Original implementation from Duretz et al., 2016
-- 
2.43.0


From 931a1c56b46751e3f187caaf9cb2e6bc9e4337b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 32/63] fix: linear strain softening overshot its end value
 when pls_start is not zero

---
 MDLIB/RheologyDensity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 7c5056e..cd156f6 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1162,9 +1162,9 @@ void Softening(int c0, double** phase_perc, double* dil_arr, double* fric_arr, d
       }
       // If we are in the softening strain range
       if (strain_acc >= materials.pls_start[p] && strain_acc < materials.pls_end[p] ) {
-        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
+        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
+        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
+        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
       }
 
     }
-- 
2.43.0


From e0d5dfded487b9748f7786583e5a9883c621f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 33/63] fix: wet crust solidus (melt model 11) was mistyped
 with a comma operator

---
 MDLIB/MeltingRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 65aff91..0b1e597 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -79,7 +79,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 831. + 0.06*P_MPa;
             }
             else {
-                Ts = 889. - 17900/(P_MPa + 54) + 20,200/pow((P_MPa + 54),2);
+                Ts = 889. + 17900./(P_MPa + 54) + 20200./pow((P_MPa + 54),2);
             }
             Tl = 1262 + 0.09*P_MPa;
             Ql = 300000.;
-- 
2.43.0


From b77921790a27b4a91cb6ae43f5f59ab9013ee5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 34/63] fix: mantle solidus (melt model 41) divided by the
 square of the pressure

---
 MDLIB/MeltingRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 0b1e597..4cf200e 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -103,7 +103,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 2212. + 0.030819*(P_MPa-10000.);
             }
             else {
-                Ts = 1394 + 0.132899*P_MPa - 0.000005014/pow(P_MPa,2);
+                Ts = 1394 + 0.132899*P_MPa - 0.000005014*pow(P_MPa,2);
             }
             Tl = 2073 + 0.114*P_MPa;
             Ql = 300000.;
-- 
2.43.0


From 04112e7f7899182508a3b09db4cf996ff9c9a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 35/63] fix: melt fraction depended on the unit of temperature

---
 MDLIB/MeltingRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 4cf200e..4051c01 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -49,7 +49,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
     const double P_MPa = P/1e6*scaling->S; // convert P to MPa
     const double T_K   = T*scaling->T;     // convert T to K
     double Ts = T_K, Tl = T_K, Ql;
-    double alpha = 1e-7/(1/scaling->T); // very small number -> linear melting
+    double alpha = 1e-7; // very small number -> linear melting
 
     if (melt_model>0 && T>1e-13 && P>1e-13) {
 
-- 
2.43.0


From 85e8787a1aa2bb02be4679fdd08eb09ce886c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 36/63] fix: density tables were read out of bounds at the edge
 of their range

---
 MDLIB/RheologyDensity.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index cd156f6..f1ef505 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1603,6 +1603,8 @@ double ItpRho1D( double Pgrid, params* model, int k ) {
   // Find index of minimum/west pressure node
   double dstP = Pgrid - model->PD1Dmin[k];
   int    iP   = ceil( dstP/dP ) - 1;
+  if (iP<0   ) iP = 0;
+  if (iP>NP-2) iP = NP-2;
   // Calculate weighting coefficients for linear interpolant
   double PW   = model->PD1Dmin[k] + iP*dP;
   double wW   = 1.0 - (Pgrid - PW)/dP;
@@ -1631,9 +1633,13 @@ double Interpolate2Ddata( double Tgrid, double Pgrid, double Tmin, double Tmax,
   // Find index of minimum/west temperature node
   dstT  = Tgrid - Tmin ;
   iT    = ceil( dstT/dT ) - 1;
+  if (iT<0   ) iT = 0;
+  if (iT>nT-2) iT = nT-2;
   // Find index of minimum/west pressure node
   dstP  = Pgrid - Pmin;
   iP    = ceil( dstP/dP ) - 1;
+  if (iP<0   ) iP = 0;
+  if (iP>nP-2) iP = nP-2;
   // Calculate weights for bilinear interpolant
   TW    = Tmin + iT*dT;
   PW    = Pmin + iP*dP;
-- 
2.43.0


From 3086ff130bbff2cfde0a370634c112ba26e45839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 37/63] fix: melting terms were skipped everywhere when the
 first cell is air

---
 MDLIB/MeltingRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 4051c01..6f78a97 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -184,7 +184,7 @@ void UpdateAlphaCp( grid* mesh, markers* particles, mat_prop *materials, params
             if ( fabs(mesh->phase_perc_n[p][c0])>1.0e-13 ) {
                 
                 // Compute only if below free surface
-                if ( mesh->BCp.type[0] != 30 && mesh->BCp.type[0] != 31) {
+                if ( mesh->BCp.type[c0] != 30 && mesh->BCp.type[c0] != 31) {
                     const int melt_model = materials->melt[p];
                     const double tk = materials->tau_kin[p];
                     PartialMelting( &phi, &Ql, mesh->p_in[c0], mesh->T[c0], mesh->phi0_n[c0], tk, model->dt, melt_model, scaling );  
@@ -240,7 +240,7 @@ void MassSourceTerm( grid* mesh, markers* particles, mat_prop *materials, params
             if ( fabs(mesh->phase_perc_n[p][c0])>1.0e-13 ) {
                 
                 // Compute only if below free surface
-                if ( mesh->BCp.type[0] != 30 && mesh->BCp.type[0] != 31) {
+                if ( mesh->BCp.type[c0] != 30 && mesh->BCp.type[c0] != 31) {
 
                     const double divth = materials->alp[p]*materials->rho[p]/mesh->rho_n[c0]*(mesh->T[c0] - mesh->T0_n[c0])/model->dt;
                     
-- 
2.43.0


From 57b87c746b68e18733d6d2a952c8f73e4b3bdd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 38/63] fix: the viscoplastic yield stress accumulated over the
 return mapping iterations

---
 MDLIB/RheologyDensity.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index f1ef505..58ec45c 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -506,6 +506,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (materials->Slim[phase] < Tyield) {
       C          = materials->Slim[phase];
       Tyield     = materials->Slim[phase];
+      sin_fric   = 0.0;
     }
   }
 
@@ -638,6 +639,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
       gdot     = F_trial / ( eta_ve + eta_vp + K*dt*sin_fric*sin_dil);
       dQdP     = -sin_dil; 
       F_trial0 = F_trial;
+      const double Tyield0 = Tyield;
 
       // Return mapping --> find plastic multiplier rate (gdot)
       for (it=0; it<nitmax; it++) {
@@ -646,7 +648,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         divp    = -gdot*dQdP;
         Pc      = P + K*dt*divp; // P0 - k*dt*(div-divp) = P + k*dt*divp
         eta_vp  = eta_vp0 * pow(fabs(gdot), 1.0/n_vp - 1.0);
-        Tyield  = Tyield + gdot*eta_vp;
+        Tyield  = Tyield0 + (Pc-P)*sin_fric + gdot*eta_vp;
         Tiic    = Tii - eta_ve*gdot;
         F_trial = Tiic - Tyield;
 
-- 
2.43.0


From 338745000a86e828694ca6b577d71767288bbbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 39/63] fix: yielding in tension raised low stresses and
 reported a dilation it did not apply

---
 MDLIB/RheologyDensity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 58ec45c..8e0c443 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -665,10 +665,10 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
       // In case return mapping has failed (because of tension), return to a von Mises minimum stress 
       if (Tiic<0.0) {
         //printf("Aie, tension!\n"); exit(1);
-        F_trial = Tii - Tiimin;
+        Tiic    = MINV(Tiimin, Tii);
+        F_trial = Tii - Tiic;
         gdot    = F_trial /  (eta_ve);
-        Tiic    = Tii - eta_ve*gdot;
-        Tiic    = Tiimin;
+        divp    = 0.0;
         Pc      = P;
       }
 
-- 
2.43.0


From 08a42e1e439fca43a85a34745222b0fff1065ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 40/63] fix: grain boundary sliding never contributed to the
 viscosity

---
 MDLIB/RheologyDensity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 8e0c443..7738f4e 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -112,6 +112,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) * params.n_gbs / eta_ve;
     if (params.constant)    dfdeta += -params.Eii / params.eta_cst;
     // Update viscosity
     eta_ve -= r_eta_ve / dfdeta;
@@ -281,6 +282,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
     // Analytical derivative of function
     double dfdeta = 0.0;
     if (params.elastic)     dfdeta += -params.Eii / params.eta_el;
+    if (params.gbs)         dfdeta += -(Eii_gbs) * params.n_gbs / eta_ve;
     if (params.constant)    dfdeta += -params.Eii / params.eta_cst;
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
@@ -384,7 +386,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   double Ea_pwl = materials->Qpwl[phase], Va_pwl = materials->Vpwl[phase], n_pwl = materials->npwl[phase], m_pwl = materials->mpwl[phase], r_pwl = materials->rpwl[phase], A_pwl = materials->Apwl[phase], f_pwl = materials->fpwl[phase], a_pwl = materials->apwl[phase], F_pwl = materials->Fpwl[phase], pre_factor = materials->pref_pwl[phase], t_pwl = materials->tpwl[phase];
   double Ea_lin = materials->Qlin[phase], Va_lin = materials->Vlin[phase], n_lin = materials->nlin[phase], m_lin = materials->mlin[phase], r_lin = materials->rlin[phase], A_lin = materials->Alin[phase], f_lin = materials->flin[phase], a_lin = materials->alin[phase], F_lin = materials->Flin[phase];
   double Ea_gbs = materials->Qgbs[phase], Va_gbs = materials->Vgbs[phase], n_gbs = materials->ngbs[phase], m_gbs = materials->mgbs[phase], r_gbs = materials->rgbs[phase], A_gbs = materials->Agbs[phase], f_gbs = materials->fgbs[phase], a_gbs = materials->agbs[phase], F_gbs = materials->Fgbs[phase];
-  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0;
+  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0, C_gbs = 0.0;
   double Ea_exp = materials->Qexp[phase], S_exp = materials->Sexp[phase], E_exp = materials->Eexp[phase], F_exp = 0.0;
   double gamma = materials->Gexp[phase], ST=0.0, n_exp = materials->nexp[phase];
   double Exx_lin = 0.0, Ezz_lin = 0.0, Exz_lin = 0.0, Exx_exp = 0.0, Ezz_exp = 0.0, Exz_exp = 0.0, Exx_gbs = 0.0, Ezz_gbs = 0.0, Exz_gbs = 0.0, Exx_cst = 0.0, Ezz_cst = 0.0, Exz_cst = 0.0;
@@ -484,6 +486,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   }
   if ( gbs == 1 ) {
     B_gbs = F_gbs * pow(A_gbs,-1.0/n_gbs) * exp( (Ea_gbs + P*Va_gbs)/R/n_gbs/T ) * pow(d, m_gbs/n_gbs) * pow(f_gbs, -r_gbs/n_gbs) * exp(-a_gbs*phi/n_gbs);
+    C_gbs = pow(2.0*B_gbs, -n_gbs);
   }
   if ( peierls   == 1 ) {
     ST                           = Ea_exp/R/T * 2.0*gamma*(1-gamma);
@@ -608,6 +611,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
           .eta_cst     = eta_cst,
           .gbs         = gbs,
           .d           = d,
+          .C_gbs       = C_gbs,
           .n_gbs       = n_gbs,
           .eta_up      = eta_up,
           .eta_lo      = eta_lo};
@@ -756,6 +760,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (peierls    == 1)  inv_eta_diss += (1.0/eta_exp);
     if (dislocation== 1)  inv_eta_diss += (1.0/eta_pwl);
     if (diffusion  == 1)  inv_eta_diss += (1.0/eta_lin);
+    if (gbs        == 1)  inv_eta_diss += (1.0/eta_gbs);
     if (constant   == 1)  inv_eta_diss += (1.0/eta_cst);
     if (is_pl      == 1)  inv_eta_diss += (1.0/eta_pl ); 
     eta  = 1.0/(inv_eta_diss);
-- 
2.43.0


From f238f0147ee59eb4f9f3975e4211e77a220d567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:18 +0000
Subject: [PATCH 41/63] fix: plastic dilation could lift the stress above the
 von Mises limit

---
 MDLIB/RheologyDensity.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 7738f4e..2c3b693 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -652,7 +652,10 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         divp    = -gdot*dQdP;
         Pc      = P + K*dt*divp; // P0 - k*dt*(div-divp) = P + k*dt*divp
         eta_vp  = eta_vp0 * pow(fabs(gdot), 1.0/n_vp - 1.0);
-        Tyield  = Tyield0 + (Pc-P)*sin_fric + gdot*eta_vp;
+        Tyield  = Tyield0 + (Pc-P)*sin_fric;
+        double sin_it = sin_fric;
+        if (materials->Slim[phase] < Tyield) { Tyield = materials->Slim[phase]; sin_it = 0.0; }
+        Tyield += gdot*eta_vp;
         Tiic    = Tii - eta_ve*gdot;
         F_trial = Tiic - Tyield;
 
@@ -660,7 +663,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         res_pl = fabs(F_trial);
         if ( noisy>0 ) printf("%02d Viscoplastic iterations It., F = %2.2e Frel = %2.2e --- n_vp = %2.2e, eta_vp = %2.2e\n", it, res_pl, res_pl/F_trial0, n_vp, eta_vp*scaling->eta);
         if ( res_pl < tol || res_pl/F_trial0 < tol ) break;
-        dFdgdot  = - eta_ve - eta_vp/n_vp - K*dt*sin_fric*sin_dil;
+        dFdgdot  = - eta_ve - eta_vp/n_vp - K*dt*sin_it*sin_dil;
         gdot    -= F_trial / dFdgdot;
 
       }
-- 
2.43.0


From b8e0674211e80323e98db410cb60ebb4af03ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:48 +0000
Subject: [PATCH 42/63] fix: solvers wrote outside their arrays when the
 pressure of a cell is prescribed

---
 MDLIB/Solvers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index ff70cfe..51e5fdd 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -723,7 +723,7 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
     
 #pragma omp parallel for shared(D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] == -1 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
@@ -1084,7 +1084,7 @@ void KillerSolver( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  SparseM
 
 #pragma omp parallel for shared( whos_incompressible, D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol, vol_change )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] == -1 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block - This relates to physics (0 is incompressible, Beta/dt is compressible)
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
@@ -1481,7 +1481,7 @@ void KSPStokesDecoupled( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  S
     
 #pragma omp parallel for shared(D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol, vol_change )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] == -1 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             
             //            cPC    = drhodPc ./ (rhoc.*dt); %% new diagonal coefficient (= 1/(K*dt) for standard EOS)
-- 
2.43.0


From acf9765e33bf11e3de4fd78b948a96794abf95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:18 +0000
Subject: [PATCH 43/63] fix: missing input file stops the run instead of
 crashing on fclose(NULL)

---
 MDLIB/InputOutput.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 84ae8d0..2fbce25 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1021,7 +1021,6 @@ Input ReadInputFile( char *fileName ) {
     fin = fopen(fileName,"rt");
     if (fin == NULL) {
         printf("Setup file '%s' does not exist\nExiting...\n", fileName);
-        fclose(fin);
         exit(1);
     }
 
-- 
2.43.0


From 4ebd77a90e59bf6bfb7c20d4e55fc1b676ddc81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:18 +0000
Subject: [PATCH 44/63] fix: string parameters are found anywhere in the input
 file, by their exact name and with their full value

---
 MDLIB/InputOutput.c | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 2fbce25..42825ef 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1716,12 +1716,15 @@ double* ReadBin(char importDir[], char A_name[], int nx, int ny, double scale ){
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
-    int h, find=0, bufmax=50, length;
+    int h, find=0, bufmax=1000, length;
     char *string1, *string2;
     char line[bufmax];
 
     string1 = malloc(sizeof(char)*bufmax);
 
+    // Start from beginning of the file.
+    rewind(fin);
+
     // Get the length of the demanded string
     length = strlen( FieldName );
 
@@ -1739,9 +1742,7 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
     while ( find == 0 ) {
 
         // Read new line
-        fgets ( line, sizeof(line), fin );
-
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %s\n", FieldName, Default);
             rewind(fin);
             free(string1);
@@ -1768,25 +1769,20 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
         param2[length] = '\0';
 
         // Check if we found the right parameter name
-        if ( strcmp(param1, param2) == 0 ) {
-            find = 1;
+        if ( strcmp(param1, param2) == 0 && strchr(" \t=", line[length]) != NULL ) {
             int str_size = 0;
             int h1;
             // Search for equal sign
-            for (h=0;h<bufmax;h++) {
-                if(strlen(line)> 0 && line[h]=='=') {
-
-                    for (h1=0; h1<30; h1++) {
-                        if ( isspace(line[h+2+h1]) ) {
-                            string1[h1] = '\0';
-                            str_size++;
-                            break;
-                        }
-                        else {
-                            string1[h1] = (line[h+2+h1]);
-                            str_size++;
-                        }
+            for (h=0;line[h]!='\0';h++) {
+                if(line[h]=='=') {
+
+                    // Skip the blanks before the value, the value ends at the next blank
+                    h += 1 + strspn(&line[h+1], " \t");
+                    for (h1=0; line[h+h1]!='\0' && !isspace(line[h+h1]); h1++) {
+                        string1[h1] = line[h+h1];
+                        str_size++;
                     }
+                    string1[h1] = '\0';
 
                     string2 = malloc((str_size+1)*sizeof(char));
                     for (h1=0; h1<str_size+1; h1++) {
-- 
2.43.0


From d59a3742357b754b2e62f1eb642532ee34769bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:18 +0000
Subject: [PATCH 45/63] fix: parameters on the last line or without a blank
 after their name are read

---
 MDLIB/InputOutput.c | 51 +++++++++++++--------------------------------
 1 file changed, 15 insertions(+), 36 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 42825ef..311d7af 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1910,8 +1910,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
     while(value == 0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %d\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -1919,12 +1918,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         }
 
         // Determine the length of the parameter string in the current line.
-        int InPar_length = 0;
-
-        while(line[InPar_length] != ' ')
-        {
-            InPar_length = InPar_length + 1;
-        }
+        int InPar_length = strcspn(line, " \t=\r\n");
 
         // Allocate memory to save the current parameter string.
         char *param2;
@@ -1941,7 +1935,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         if( (strcmp(param1, param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; line[h] != '\0' ;h++)
             {
                 if(strlen(line)> 0 && line[h]=='=')
                 {
@@ -1983,8 +1977,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
     while(value == 0.0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             // printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -1992,11 +1985,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
         }
 
         // Determine the length of the parameter string in the current line.
-        int InPar_length = 0;
-        while(line[InPar_length] != ' ')
-        {
-            InPar_length = InPar_length + 1;
-        }
+        int InPar_length = strcspn(line, " \t=\r\n");
 
         // Allocate memory to save the current parameter string.
         char *param2;
@@ -2013,7 +2002,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
         if( (strcmp(param1, param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; line[h] != '\0' ;h++)
             {
                 if(strlen(line)> 0 && line[h]=='=')
                 {
@@ -2055,8 +2044,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
     while(find == 0)
     {
         // Read new line and check for existence of phases. If not exit.
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin))
+        if (fgets ( line, sizeof(line), fin ) == NULL)
         {
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
@@ -2065,12 +2053,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         }
 
         // Determine the length of the parameter string in the current line.
-        int InPar_length = 0;
-
-        while(line[InPar_length] != ' ')
-        {
-            InPar_length = InPar_length + 1;
-        }
+        int InPar_length = strcspn(line, " \t=\r\n");
 
         // Allocate memory to save the current parameter string.
         char *param2;
@@ -2087,7 +2070,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         if( (strcmp("ID", param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; line[h] != '\0' ;h++)
             {
                 if(strlen(line)> 0 && line[h] == '=')
                 {
@@ -2103,13 +2086,10 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                 while(subfind == 0)
                 {
                     // Read new line
-                    fgets ( phase_line, sizeof(phase_line), fin );
+                    const int end_of_file = fgets ( phase_line, sizeof(phase_line), fin ) == NULL;
+                    if (end_of_file) phase_line[0] = '\0';
                     // Determine the length of the parameter string in the current line.
-                    InPar_length = 0;
-                    while(phase_line[InPar_length] != ' ')
-                    {
-                        InPar_length = InPar_length + 1;
-                    }
+                    InPar_length = strcspn(phase_line, " \t=\r\n");
 
                     // Allocate memory to save the current parameter string.
                     char *param3;
@@ -2137,10 +2117,10 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     if( (strcmp(param1, param3)) == 0 )
                     {
                         // Search for equal sign
-                        for (h = 0; h < bufmax ;h++)
+                        for (h = 0; phase_line[h] != '\0' ;h++)
                         {
 
-                            if(strlen(line)> 0 && phase_line[h]=='=')
+                            if(phase_line[h]=='=')
                             {
                                 value = atof(&phase_line[h+1]);
                                 free(param1);
@@ -2149,11 +2129,10 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                                 return value;
                             }
                         }
-                        subfind = 1;
                     }
 
                     // Break in case the parameter has not been defined until the end of the file.
-                    if (feof(fin))
+                    if (end_of_file)
                     {
                         if ( fabs(Default) <  100.0 ) printf("Warning : Parameter '%s' not found in the setup file, running with default value %.2lf\n", FieldName, Default);
                         if ( fabs(Default) >= 100.0 ) printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
-- 
2.43.0


From 87eeb0440c3a3bac17af8514e35ee59af68ac6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 46/63] fix: linear flow law 1 (Siltstone) wrote the power-law
 constants and left its own unset

---
 MDLIB/FlowLaws.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/MDLIB/FlowLaws.c b/MDLIB/FlowLaws.c
index 34090c3..efe16c3 100755
--- a/MDLIB/FlowLaws.c
+++ b/MDLIB/FlowLaws.c
@@ -587,15 +587,15 @@ void ReadDataLinear( mat_prop* mat, params* model, int k, int number, scale* sca
             
         case 1:
             printf("Siltstone flow law calibrated from file data  at 350 C ():\n" );
-            mat->tpwl[k] = 1;
-            mat->npwl[k] = 3.3;
-            mat->mpwl[k] = 0.0;
-            mat->rpwl[k] = 0.0;
-            mat->Qpwl[k] = 186.5e3;
-            mat->Vpwl[k] = 0.0e-6;
-            mat->Apwl[k] = 3.1623e-26;
-            mat->fpwl[k] = 0.0;
-            mat->apwl[k] = 0.0;
+            mat->tlin[k] = 1;
+            mat->nlin[k] = 3.3;
+            mat->mlin[k] = 0.0;
+            mat->rlin[k] = 0.0;
+            mat->Qlin[k] = 186.5e3;
+            mat->Vlin[k] = 0.0e-6;
+            mat->Alin[k] = 3.1623e-26;
+            mat->flin[k] = 0.0;
+            mat->alin[k] = 0.0;
             success      = 1;
             break;
         
-- 
2.43.0


From 959af17ed9a826badede253e1e6d526f9f180c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 47/63] fix: time step selection of thermal runs read past the
 end of the temperature arrays

---
 MDLIB/AdvectionRoutines.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index 9651b58..be2f883 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -588,11 +588,11 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
     }
 
     if (model->thermal==1) {
-        for (k=0; k<model->Nx+1; k++) {
-            for (l=0; l<model->Nz; l++) {
+        for (k=0; k<model->Nx-1; k++) {
+            for (l=0; l<model->Nz-1; l++) {
                 c  = k   + l*Ncx;
-                dT = mesh->T[c] - mesh->T0_n[c];
-                if (fabs(dT) > dTmax) dTmax = dT;
+                dT = fabs(mesh->T[c] - mesh->T0_n[c]);
+                if (dT > dTmax) dTmax = dT;
             }
         }
         dt_therm = max_dT_allowed/dTmax*model->dt;
-- 
2.43.0


From 965ae692f704b8fee027d87df61280a59d782602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 48/63] fix: parallel matrix assembly wrote past the last
 thread's block when the grid does not divide evenly

---
 MDLIB/StokesAssemblyDecoupled.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index dbfe44b..c088b35 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -1258,7 +1258,11 @@ void DomainDecompositionDecoupled( int N, int n_th, int *estart, int *eend, int
 
 void AllocateTempMatArraysDecoupled(double ***Atemp, int ***Itemp, int ***Jtemp, int n_th, int nnz, int neq, int* DD, int **nnzc2 ) {
     
-    int ith;
+    int ith, N=0, nnz_eq, nnz_th;
+    
+    // Number of coefficients per node (rounded up): the blocks of the threads are not of equal size
+    for (ith=0; ith<n_th; ith++) N += DD[ith];
+    nnz_eq = nnz/N + 1;
     
     // Temporary parallel Matrix arrays
     *Atemp = DoodzMalloc( sizeof(double*) * n_th );
@@ -1267,9 +1271,10 @@ void AllocateTempMatArraysDecoupled(double ***Atemp, int ***Itemp, int ***Jtemp,
     *nnzc2 = DoodzCalloc( n_th, sizeof(int) );
     
     for (ith=0; ith<n_th; ith++) {
-        (*Atemp)[ith] = DoodzMalloc( sizeof(double) * (int)(nnz/n_th) );
+        nnz_th        = nnz_eq*DD[ith];
+        (*Atemp)[ith] = DoodzMalloc( sizeof(double) * nnz_th );
         (*Itemp)[ith] = DoodzCalloc( (neq+1), sizeof(int) );
-        (*Jtemp)[ith] = DoodzMalloc( sizeof(int) * (int)(nnz/n_th) );
+        (*Jtemp)[ith] = DoodzMalloc( sizeof(int) * nnz_th );
     }
 }
 
-- 
2.43.0


From e680094dab21abbf25d0e6022351eead903ac332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:11 +0000
Subject: [PATCH 49/63] fix: chemical diffusion let the composition of the rock
 leak into the air

---
 MDLIB/ChemicalRoutines.c | 18 +++++++++++-------
 MDLIB/FreeSurface.c      |  3 +++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index cdd0b04..afd02f9 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -75,7 +75,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     double  *A;
     double  *b, *bbc, *x;      // Coefs, rhs, sol
     int *Ic, *J;      // lines, colums
-    int k, l, c0, c1, c2, c3, nx, nz, nxvz, nzvx, ncx, ncz;
+    int k, l, c0, c1, c2, c3, cW, cE, nx, nz, nxvz, nzvx, ncx, ncz;
     double AW, AE, AS, AN;
     int *eqn_t, nnzc, eqn = 0;
     double val, theta=1.0;
@@ -89,7 +89,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     double Pr,  Pr_phase;
     double dPr, dPr_phase;
     double ks;//   = k_chem;
-    double mink;// = k_chem;
+    double mink = 0.0;// = k_chem;
     
     // Pre-calculate FD coefs
     double one_dx_dx = 1.0/mesh->dx/mesh->dx;
@@ -145,7 +145,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
             b[eqn]  = transient * mesh->X_n[c2]/ dt;
         }
     }
-    MinMaxArray(b, scaling.E, ncz*ncx, "b chemical_diffusion");
+    MinMaxArray(b, scaling.E, neq, "b chemical_diffusion");
     
     //----------------------------------------------------//
 
@@ -171,6 +171,10 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 AS    = mesh->kc_z[c3]       ;
                 AN    = mesh->kc_z[c3+nxvz]  ;
                 
+                // Cells on the W and E sides (across the boundary if periodic)
+                cW = (k==0     && mesh->BCC_exp.type[c0-1]==-2) ? c0+(ncx-1) : c0-1;
+                cE = (k==ncx-1 && mesh->BCC_exp.type[c0+1]==-2) ? c0-(ncx-1) : c0+1;
+                
                 // Contribution to S dof
                 if ( l>0 ) {
                     if (mesh->BCC_exp.type[c0-(ncx+2)] != 30 ) {
@@ -180,7 +184,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 }
                 
                 // Periodic on the E side
-                if (mesh->BCC_exp.type[c0+1]==-2 && k==ncx-1 ) {
+                if (mesh->BCC_exp.type[c0+1]==-2 && k==ncx-1 && mesh->BCC_exp.type[cE] != 30 ) {
                     val = -theta*AE*one_dx_dx;
                     AddCoeffChem( J, A, eqn, eqn_t[c2-(ncx-1)],   &nnzc,  val );
                 }
@@ -220,7 +224,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 
                 // Flux from sides: WEST
                 if ( (k>0) || (k==0 && mesh->BCC_exp.type[c0-1]==-2) ) {
-                    if (mesh->BCC_exp.type[c0-1] != 30 ) {
+                    if (mesh->BCC_exp.type[cW] != 30 ) {
                         val +=  AW*one_dx_dx;
                     }
                     // Dirichlet contribution (free surface)
@@ -234,7 +238,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 
                 // Flux from sides: EAST
                 if ( (k<ncx-1) || (k==ncx-1 && mesh->BCC_exp.type[c0+1]==-2) ) {
-                    if (mesh->BCC_exp.type[c0+1] != 30 ) {
+                    if (mesh->BCC_exp.type[cE] != 30 ) {
                         val +=  AE*one_dx_dx;
                     }
                     // Dirichlet contribution (free surface)
@@ -322,7 +326,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 }
                 
                 // Periodic on the W side
-                if (mesh->BCC_exp.type[c0-1]==-2 && k==0 ) {
+                if (mesh->BCC_exp.type[c0-1]==-2 && k==0 && mesh->BCC_exp.type[cW] != 30 ) {
                     val = -theta*AW*one_dx_dx;
                     AddCoeffChem( J, A, eqn, eqn_t[c2+(ncx-1)],   &nnzc,  val );
                 }
diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index b668ca9..c2168cd 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -616,11 +616,13 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
             
             mesh->BCp.type[c1]     = PVtag[c2];
             mesh->BCt.type[c1]     = PVtag[c2];
+            mesh->BCc.type[c1]     = PVtag[c2];
             mesh->BCp_exp.type[c2] = PVtag[c2];
 
             
             if ( PVtag[c2] == 30 ) {
                 mesh->BCt.type[c1]     = 30;
+                mesh->BCc.type[c1]     = 30;
                 mesh->T[c1]            = zeroC/scaling.T ;
                 mesh->BCp_exp.type[c2] = 30;
             }
@@ -632,6 +634,7 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
                 
                 // TEMPERATURE above THE SURFACE
                 mesh->BCt.type[c1] = 30;
+                mesh->BCc.type[c1] = 30;
                 mesh->T[c1]        = zeroC/scaling.T ;
                 // activate first layer above surface for interpolation
                 mesh->BCp_exp.type[c2] = -1;
-- 
2.43.0


From 28f80703caf43e7372fcdf7914031df0c0403242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:11 +0000
Subject: [PATCH 50/63] fix: composition flow through the bottom was divided by
 the cell width instead of its height

---
 MDLIB/ChemicalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index afd02f9..94da689 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -272,7 +272,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 }
                 
                 if (l==0 && mesh->BCC_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                    bbc[eqn] += -1.0/mesh->dx * mesh->BCC_exp.val[c0-(ncx+2)];
+                    bbc[eqn] += -1.0/mesh->dz * mesh->BCC_exp.val[c0-(ncx+2)];
                 }
                 
                 if (k==0 && mesh->BCC_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From 0797ef9b8ba4ce9eb7738d3b528e15e9527f97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:11 +0000
Subject: [PATCH 51/63] fix: SetBCC was given the temperature of the cell
 instead of its composition

---
 MDLIB/Setup.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index c87cd11..913c7a9 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -720,7 +720,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
         if (k == 0) {
           position = W;
           if (setBCs.SetBCC) {
-            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X0_n[c]);
             mesh->BCC_exp.type[c1-1] = bc.type;
             mesh->BCC_exp.val[c1-1]  = bc.value;
           }
@@ -730,7 +730,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
         if (k == NCX-1) {
           position = E;
           if (setBCs.SetBCC) {
-            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X0_n[c]);
             mesh->BCC_exp.type[c1+1] = bc.type;
             mesh->BCC_exp.val[c1+1]  = bc.value;
           }
@@ -740,7 +740,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
         if (l == 0) {
           position = S;
           if (setBCs.SetBCC) {
-            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X0_n[c]);
             mesh->BCC_exp.type[c1-(NCX+2)] = bc.type;
             mesh->BCC_exp.val[c1-(NCX+2)]  = bc.value;
           }
@@ -750,7 +750,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
         if (l == NCZ-1) {
           position = N;
           if (setBCs.SetBCC) {
-            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X0_n[c]);
             mesh->BCC_exp.type[c1+(NCX+2)] = bc.type;
             mesh->BCC_exp.val[c1+(NCX+2)]  = bc.value;
           }
@@ -761,7 +761,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
           if ((mesh->BCc.type[c] == -1 || mesh->BCc.type[c] == 1 || mesh->BCt.type[c] == 0) && mesh->BCt.type[c + NCX] == 30) {
             position = free_surface;
             if (setBCs.SetBCC) {
-              SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+              SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X0_n[c]);
               mesh->BCC_exp.type[c1] = bc.type;
               mesh->BCC_exp.val[c1]  = bc.value;
             }
-- 
2.43.0


From e5281ef3c542c6da51e0c13f7d9a489f0bd3827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 52/63] fix: node types were read before the test that the node
 exists

---
 MDLIB/StokesAssemblyDecoupled.c | 40 ++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index c088b35..814856a 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -658,19 +658,19 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
     }
     
     if ( Assemble == 1 ) {
-        const bool SetVzS  = BCv_t[iVzS] != 30 && iz>0;
+        const bool SetVzS  = iz>0 && BCv_t[iVzS] != 30;
         const bool SetVzW  = BCv_t[iVzW] != 30 ;
         const bool SetVzC  = BCv_t[iVzC] != 30;
         const bool SetVzE  = BCv_t[iVzE] != 30 ;
-        const bool SetVzN  = BCv_t[iVzN] != 30 && iz<nz-1;
+        const bool SetVzN  = iz<nz-1 && BCv_t[iVzN] != 30;
         //--------------------
-        const bool SetVxSW = BCu_t[iVxSW] != 30 && iz>0   ;
-        const bool SetVxSE = BCu_t[iVxSE] != 30 && iz>0   ;
-        const bool SetVxNW = BCu_t[iVxNW] != 30 && iz<nz-1;
-        const bool SetVxNE = BCu_t[iVxNE] != 30 && iz<nz-1;
+        const bool SetVxSW = iz>0 && BCu_t[iVxSW] != 30;
+        const bool SetVxSE = iz>0 && BCu_t[iVxSE] != 30;
+        const bool SetVxNW = iz<nz-1 && BCu_t[iVxNW] != 30;
+        const bool SetVxNE = iz<nz-1 && BCu_t[iVxNE] != 30;
         //--------------------
-        const bool SetPrS  = BCp_t[iPrS] != 30 && iz>0;
-        const bool SetPrN  = BCp_t[iPrN] != 30 && iz<nz-1;
+        const bool SetPrS  = iz>0 && BCp_t[iPrS] != 30;
+        const bool SetPrN  = iz<nz-1 && BCp_t[iPrN] != 30;
         //--------------------
         StokesA->b[eqn] *= celvol;
         StokesB->b[eqn] *= celvol;
@@ -951,23 +951,23 @@ void Zjacobian_InnerNodesDecoupled3( SparseMat *Stokes, SparseMat *StokesA, Spar
     //--------------------
         
     if ( Assemble == 1 ) {
-        const bool SetVzSW = BCv_t[iVzSW] != 30 && iz>0;
-        const bool SetVzS  = BCv_t[iVzS]  != 30 && iz>0;
-        const bool SetVzSE = BCv_t[iVzSE] != 30 && iz>0;
+        const bool SetVzSW = iz>0 && BCv_t[iVzSW] != 30;
+        const bool SetVzS  = iz>0 && BCv_t[iVzS]  != 30;
+        const bool SetVzSE = iz>0 && BCv_t[iVzSE] != 30;
         const bool SetVzW  = BCv_t[iVzW]  != 30 ;
         const bool SetVzC  = BCv_t[iVzC]  != 30;
         const bool SetVzE  = BCv_t[iVzE]  != 30 ;
-        const bool SetVzNW = BCv_t[iVzNW] != 30 && iz<nz-1;
-        const bool SetVzN  = BCv_t[iVzN]  != 30 && iz<nz-1;
-        const bool SetVzNE = BCv_t[iVzNE] != 30 && iz<nz-1;
+        const bool SetVzNW = iz<nz-1 && BCv_t[iVzNW] != 30;
+        const bool SetVzN  = iz<nz-1 && BCv_t[iVzN]  != 30;
+        const bool SetVzNE = iz<nz-1 && BCv_t[iVzNE] != 30;
         //--------------------
-        const bool SetVxSW = BCu_t[iVxSW] != 30 && iz>0   ;
-        const bool SetVxSE = BCu_t[iVxSE] != 30 && iz>0   ;
-        const bool SetVxNW = BCu_t[iVxNW] != 30 && iz<nz-1;
-        const bool SetVxNE = BCu_t[iVxNE] != 30 && iz<nz-1;
+        const bool SetVxSW = iz>0 && BCu_t[iVxSW] != 30;
+        const bool SetVxSE = iz>0 && BCu_t[iVxSE] != 30;
+        const bool SetVxNW = iz<nz-1 && BCu_t[iVxNW] != 30;
+        const bool SetVxNE = iz<nz-1 && BCu_t[iVxNE] != 30;
         //--------------------
-        const bool SetPrS  = BCp_t[iPrS] != 30 && iz>0;
-        const bool SetPrN  = BCp_t[iPrN] != 30 && iz<nz-1;
+        const bool SetPrS  = iz>0 && BCp_t[iPrS] != 30;
+        const bool SetPrN  = iz<nz-1 && BCp_t[iPrN] != 30;
         //--------------------
         StokesA->b[eqn] *= celvol;
         StokesB->b[eqn] *= celvol;
-- 
2.43.0


From 708c15304682a2c95032639edf23fa4530494ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 53/63] fix: initial guess of the vertical velocity was taken
 from the horizontal one

---
 MDLIB/SparseTools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/SparseTools.c b/MDLIB/SparseTools.c
index d024fcb..57ae156 100755
--- a/MDLIB/SparseTools.c
+++ b/MDLIB/SparseTools.c
@@ -167,7 +167,7 @@ void BuildInitialSolutions( double* u0, double* p0, grid* mesh ) {
         for( k=0; k<mesh->Nx+1; k++) {
             kk = k + l*(mesh->Nx+1);
             if ( mesh->BCv.type[kk] != 0  && mesh->BCv.type[kk] != 30 && mesh->BCv.type[kk] != 13  && mesh->BCv.type[kk] != 11 && mesh->BCv.type[kk] != -12 ) {
-                u0[inc] = mesh->u_in[kk];
+                u0[inc] = mesh->v_in[kk];
                 inc++;
             }
         }
-- 
2.43.0


From 3ad24ac6bac2ff81edfa3cb6d53ff6a4d8cb13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 54/63] fix: cells that lost their compressible material stayed
 compressible

---
 MDLIB/StokesRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/StokesRoutines.c b/MDLIB/StokesRoutines.c
index 9b6ecfd..d54ae75 100755
--- a/MDLIB/StokesRoutines.c
+++ b/MDLIB/StokesRoutines.c
@@ -517,6 +517,7 @@ void DetectCompressibleCells ( grid* mesh, params *model ) {
 
      printf("---> Detecting compressible cells\n");
      for( cc=0; cc<ncx*ncz; cc++) {
+         mesh->comp_cells[cc] = 0; // cells may lose their compressible material
          if ( mesh->BCp.type[cc] != 30 ) {
              if ( mesh->bet_n[cc] > 1e-13 ) {
                  mesh->comp_cells[cc] = 1;
-- 
2.43.0


From 655764742db078383f9b717a017dc6f0a9f849ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 55/63] fix: pressure blocks of solvers -1 and 1 were indexed
 by cell instead of equation

---
 MDLIB/Solvers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index 51e5fdd..5308b3f 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -727,10 +727,10 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
-            if (mesh->comp_cells[k]==1) ((double*)D1cm0->x)[i]  = mesh->bet_n[k] / model.dt * celvol * matD->d[k]*matD->d[k];
+            if (mesh->comp_cells[k]==1) ((double*)D1cm0->x)[i]  = mesh->bet_n[k] / model.dt * celvol * matD->d[i]*matD->d[i];
             // Here Dcm0 is the inverse of the pressure block
             if (mesh->comp_cells[k]==0) ((double*)Dcm0->x)[i] *= penalty; // Should be /celvol
-            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[k]; // Should be /celvol
+            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[i]; // Should be /celvol
         }
     }
     
@@ -1494,7 +1494,7 @@ void KSPStokesDecoupled( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  S
 
             // Here Dcm0 is the inverse of the pressure block
             if (mesh->comp_cells[k]==0) ((double*)Dcm0->x)[i] *= penalty; // Should be /celvol
-            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[k]; // Should be /celvol
+            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[i]; // Should be /celvol
             //          printf("%2.2e %2.2e %2.2e %2.2e\n", mesh->bet[k]/model.dt, penalty, mesh->bet[k]*(1/scaling.S), model.dt*scaling.t);
         }
     }
-- 
2.43.0


From 62fd04faa407eb6ae90560977ad82e8cde5034f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 56/63] fix: linear solvers accepted large negative residuals

---
 MDLIB/Solvers.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index 5308b3f..3ad90de 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -899,6 +899,9 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
         // Check: Stopping criteria
         MinMaxArrayVal( fp->x, matC->neq, &mindiv, &maxdiv );
         MinMaxArrayVal( fu->x, matA->neq, &minru , &maxru  );
+        // Largest residuals in magnitude
+        maxdiv = fmax( fabs(mindiv), fabs(maxdiv) );
+        maxru  = fmax( fabs(minru),  fabs(maxru)  );
         if (k==0) maxdiv0 = maxdiv;
         if ( noisy == 1 ) printf("PH comp it. %01d. rel. max. div. = %2.2e -- max. abs. div = %2.2e-- max. rel. div = %2.2e  / max. mom. = %2.2e rel. max. mom. = %2.2e\n", k, fabs(maxdiv/maxdiv0), maxdiv, maxdivit, maxru, maxru/maxru0);
         if (k>1 && (fabs(maxdiv)<model.lin_abs_div || maxdiv/maxdiv0<lin_rel_div ) ) break;
@@ -1307,6 +1310,9 @@ void KillerSolver( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  SparseM
         // Check: Stopping criteria
         MinMaxArrayVal( fp->x, matC->neq, &mindiv, &maxdiv );
         MinMaxArrayVal( fu->x, matA->neq, &minru , &maxru  );
+        // Largest residuals in magnitude
+        maxdiv = fmax( fabs(mindiv), fabs(maxdiv) );
+        maxru  = fmax( fabs(minru),  fabs(maxru)  );
         if (k==0) { maxdiv0 = maxdiv; maxru0 = maxru; }
 
         if ( noisy > 0 ) printf("PH comp it. %01d. its_KSP = %02d: max. cont. = %2.2e - rel. max. div. = %2.2e / max. mom. = %2.2e - rel. max. mom. = %2.2e\n", k, its_KSP, maxdiv, fabs(maxdiv/maxdiv0), maxru, maxru/maxru0);
-- 
2.43.0


From 0bc8a45e986678f23e3d991b13f05356f69c7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 57/63] fix: solver -1 went on with unusable factors and
 returned Nans

---
 MDLIB/Solvers.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index 3ad90de..e80fcfd 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -852,6 +852,11 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
     
     t_omp = (double)omp_get_wtime();
     cholmod_factorize( Lcml, Lfact, &c);
+    if (c.status==1) { // The factors are unusable, the solution would be made of Nans
+        printf("CHOLDMOD failed because the matrix is not positive definite...\n");
+        printf("MDoodz7.0 has to stop...\n");
+        exit(1);
+    }
     printf("** Time for Cholesky factorization = %lf sec\n", (double)((double)omp_get_wtime() - t_omp));
     
     cholmod_dense *u, *p, *du, *dp, *bu, *bp, *pdum, *udum, *fu, *fp, *E, *Y;
-- 
2.43.0


From 19ace2aebd61839df3eaa11ceae7c84491097c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 58/63] fix: solver -1 replaced the pressure gradient by the
 transposed divergence, which differs with out-of-plane strain

---
 MDLIB/Solvers.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index e80fcfd..98938b5 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -682,7 +682,7 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
     
     double  celvol = model.dx*model.dz ;
     //    double  celvol = 1.0 ;
-    cs_di  A, B, D, C, *B1, *L, *Ac, *Bc,  *Cc,  *Dc, *L1;
+    cs_di  A, B, D, C, *L, *Ac, *Bc,  *Cc,  *Dc, *L1;
     DoodzFP  *u0, *p0;
     int  noisy=1;
     int nitmax=20, k, i;
@@ -798,17 +798,8 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
     // Matrix multiplication: D*C
     L =  cs_di_multiply( Dc, Cc );
     
-    //----- test - in case C' != B (assume B is deficient)
-    B1 = cs_di_transpose( Cc, 1);
-    
-    // minus sign: B = -C'
-    for (k=0;k<B1->nzmax;k++) {
-        B1->x[k] *= -1.0;
-    }
-    //-----
-    
     // Matrix multiplication: B*(D*C)
-    L1 = cs_di_multiply( B1, L);
+    L1 = cs_di_multiply( Bc, L);
     cs_spfree(L);
     
     // Matrix addition: L = A - B*(D*C)
@@ -822,8 +813,8 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
     copy_cs_to_cholmod_matrix( Lcm, L );
     Acm = cholmod_allocate_sparse (Ac->m, Ac->n, Ac->nzmax, 0, 1, 0, 1, &c) ;
     copy_cs_to_cholmod_matrix( Acm, Ac );
-    Bcm = cholmod_allocate_sparse (B1->m, B1->n, B1->nzmax, 0, 1, 0, 1, &c) ;
-    copy_cs_to_cholmod_matrix( Bcm, B1 );
+    Bcm = cholmod_allocate_sparse (Bc->m, Bc->n, Bc->nzmax, 0, 1, 0, 1, &c) ;
+    copy_cs_to_cholmod_matrix( Bcm, Bc );
     Ccm = cholmod_allocate_sparse (Cc->m, Cc->n, Cc->nzmax, 0, 1, 0, 1, &c) ;
     copy_cs_to_cholmod_matrix( Ccm, Cc );
     Dcm = cholmod_allocate_sparse (Dc->m, Dc->n, Dc->nzmax, 0, 1, 0, 1, &c) ;
@@ -1035,7 +1026,6 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
     DoodzFree(B.i);
     DoodzFree(B.x);
     cs_spfree(Bc);
-    cs_spfree(B1);
     DoodzFree(C.p);
     DoodzFree(C.i);
     DoodzFree(C.x);
-- 
2.43.0


From 8bce156ed99eea672e0c05a7e3fe9feda4b3a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 59/63] fix: aspect ratio of the strain ellipse became NaN by
 round-off for rigid rotations

---
 MDLIB/RheologyParticles.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index f1e64e8..6d42640 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -650,11 +650,11 @@ void FiniteStrainAspectRatio ( grid *mesh, scale scaling, params model, markers
         U0zx = 1/t*CGzx;
         U0zz = 1/t*(CGzz + s);
         
-        // eigs(U0)
+        // eigs(U0): half their difference as a sum of squares, which cannot get negative by round-off (e.g. rigid rotation)
         Tr   = U0xx + U0zz;
-        Det  = U0xx*U0zz - U0xz*U0zx;
-        e1   = Tr/2.0 + sqrt( Tr*Tr/4.0 - Det );
-        e2   = Tr/2.0 - sqrt( Tr*Tr/4.0 - Det );
+        Det  = 0.25*(U0xx - U0zz)*(U0xx - U0zz) + U0xz*U0zx;
+        e1   = Tr/2.0 + sqrt( Det );
+        e2   = Tr/2.0 - sqrt( Det );
         
         // aspect ratio
         FS_AR[k] = e1/e2;
-- 
2.43.0


From 50cdfe915ccccd5d51342ece6a1700dc45c52e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 60/63] fix: viscosity cut-offs were not applied to anisotropic
 materials

---
 MDLIB/AnisotropyRoutines.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 1611e01..e1e14f2 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -341,6 +341,11 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       // printf("eta = %2.6e --- eta_ve = %2.6e --- eta_ve1 = %2.6e\n", eta, eta_ve, 1.0/(1./eta+1./eta_el));
     }
   }
+
+  // Viscosity limiter
+  *eta_vep = MAXV( MINV( *eta_vep, max_eta ), min_eta );
+  eta      = MAXV( MINV( eta,      max_eta ), min_eta );
+
   return eta;
 }
 
-- 
2.43.0


From 720fa003d34d24a313f809d0d7ac435b3716d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 61/63] fix: anisotropic materials at rest stopped the run
 (zero strain rate gave NaN)

---
 MDLIB/AnisotropyRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index e1e14f2..60c6c5b 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -180,6 +180,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     double I2_v, Y2_v, Eii_vis, W_n, W_s, ieta_pwl, deta_n, deta_s;
     // Construct initial guess for viscosity: Isolated viscosities 
     double Eii = sqrt(I2( &E_rot )); 
+    if (Eii * scaling->E < 1e-30) Eii = 1e-30 / scaling->E;
     if (constant)    eta_cst  = materials->eta0[phase];
     if (dislocation) eta_pwl  = B_pwl * pow( Eii, (1-n_pwl)/n_pwl );
     if (elastic)     eta_el   = G*dt;
-- 
2.43.0


From b123f105cdd964d8ede8092a617fe3751e6f7db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 62/63] fix: geometric mean of anisotropy factors stopped the
 run where the factor is one

---
 MDLIB/AnisotropyRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 60c6c5b..2a24ba2 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -399,7 +399,7 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
         }
 
 
-        if ( isinf(1.0/mesh->aniso_factor_n[c0]) ) {
+        if ( average != 2 && isinf(1.0/mesh->aniso_factor_n[c0]) ) {
           printf("Cell %d has no neighbouring particles: average=%d, value = %2.2e, 1/value=%2.2e \n", c0, average, mesh->aniso_factor_n[c0], 1.0/mesh->aniso_factor_n[c0]);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_n[p][c0]);
@@ -449,7 +449,7 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
 
         }
 
-        if ( isinf(1.0/mesh->aniso_factor_s[c1]) ) {
+        if ( average != 2 && isinf(1.0/mesh->aniso_factor_s[c1]) ) {
           printf("Node %d has no neighbouring particles\n", c1);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_s[p][c1]);
-- 
2.43.0


From 99102e95891c8aef29eb70641ac1a20c272d11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 63/63] fix: stress limit of dilating anisotropic materials was
 overshot

---
 MDLIB/AnisotropyRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 2a24ba2..8ba9fc8 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -164,6 +164,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
 
       // Von-Mises cut-off
       if (materials->Slim[phase] < Tyield) {
+        fric       = 0.0; // the yield stress does not depend on pressure any more
         Coh        = materials->Slim[phase];
         Tyield     = materials->Slim[phase];
       }
-- 
2.43.0

