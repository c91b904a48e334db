From 3a5233179efba8877eebd4d3ada2738f66f3f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 01/59] fix: cell lists repeated pairs in boxes thinner than
 three cutoffs and lost them in triclinic boxes

---
 src/pyscal/system.cpp | 68 +++++++++++++++++++++++++------------------
 src/pyscal/system.h   |  2 +-
 2 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7ba835f..044497c 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -493,18 +493,25 @@ void System::set_up_cells(){
 
       int si,sj,sk, maincell, subcell;
       vector<int> cc;
+      //the width of the box in each direction is the distance between opposite faces
+      double wx = boxx;
+      double wy = boxy;
+      double wz = boxz;
+      if (triclinic == 1){
+          //rows of rotinv are the normals of the faces, scaled by the inverse of the width
+          wx = 1.0/sqrt(rotinv[0][0]*rotinv[0][0] + rotinv[0][1]*rotinv[0][1] + rotinv[0][2]*rotinv[0][2]);
+          wy = 1.0/sqrt(rotinv[1][0]*rotinv[1][0] + rotinv[1][1]*rotinv[1][1] + rotinv[1][2]*rotinv[1][2]);
+          wz = 1.0/sqrt(rotinv[2][0]*rotinv[2][0] + rotinv[2][1]*rotinv[2][1] + rotinv[2][2]*rotinv[2][2]);
+      }
       //find of all find the number of cells in each direction
-      nx = boxx/neighbordistance;
-      ny = boxy/neighbordistance;
-      nz = boxz/neighbordistance;
-      //now use this to find length of cell in each direction
-      double lx = boxx/nx;
-      double ly = boxy/ny;
-      double lz = boxz/nz;
+      //there is always at least one
+      nx = max(1, int(wx/neighbordistance));
+      ny = max(1, int(wy/neighbordistance));
+      nz = max(1, int(wz/neighbordistance));
       //find the total number of cells
       total_cells = nx*ny*nz;
       //create a vector of cells
-      cells = new cell[total_cells];
+      cells.assign(total_cells, cell());
       //now run over and for each cell create its neighbor cells
       //all neighbor cells are also added
       for(int i=0; i<nx; i++){
@@ -516,8 +523,11 @@ void System::set_up_cells(){
                       for(int sk=k-1; sk<=k+1; sk++){
                          cc = cell_periodic(si, sj, sk);
                          subcell = cell_index(cc[0], cc[1], cc[2]);
-                         //add this to the list of neighbors
-                         cells[maincell].neighbor_cells.emplace_back(subcell);
+                         //add this to the list of neighbors, but only once: with less than
+                         //three cells in a direction, it is met again through the boundary
+                         vector<int> &ncells = cells[maincell].neighbor_cells;
+                         if (find(ncells.begin(), ncells.end(), subcell) == ncells.end())
+                             ncells.emplace_back(subcell);
 
                       }
                   }
@@ -537,26 +547,28 @@ void System::set_up_cells(){
           dx = atoms[ti].posx;
           dy = atoms[ti].posy;
           dz = atoms[ti].posz;
-          
-          //now apply boxdims
-          if( abs(dx-0) < 1E-6)
-              dx = 0;
-          if( abs(dy-0) < 1E-6)
-              dy = 0;
-          if( abs(dz-0) < 1E-6)
-              dz = 0;
-
-          if (dx < 0) dx+=boxx;
-          else if (dx >= boxx) dx-=boxx;
-          if (dy < 0) dy+=boxy;
-          else if (dy >= boxy) dy-=boxy;
-          if (dz < 0) dz+=boxz;
-          else if (dz >= boxz) dz-=boxz;
+
+          //now convert to fractional coordinates
+          if (triclinic == 1){
+              ddx = rotinv[0][0]*dx + rotinv[0][1]*dy + rotinv[0][2]*dz;
+              ddy = rotinv[1][0]*dx + rotinv[1][1]*dy + rotinv[1][2]*dz;
+              ddz = rotinv[2][0]*dx + rotinv[2][1]*dy + rotinv[2][2]*dz;
+          }
+          else{
+              ddx = dx/boxx;
+              ddy = dy/boxy;
+              ddz = dz/boxz;
+          }
+
+          //wrap them into the box
+          ddx -= floor(ddx);
+          ddy -= floor(ddy);
+          ddz -= floor(ddz);
 
           //now find c vals
-          cx = dx/lx;
-          cy = dy/ly;
-          cz = dz/lz;
+          cx = min(int(ddx*nx), nx-1);
+          cy = min(int(ddy*ny), ny-1);
+          cz = min(int(ddz*nz), nz-1);
 
           //now get cell index
           ind = cell_index(cx, cy, cz);
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 9f6558f..abe0cef 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -73,7 +73,7 @@ class System{
         int usecells;
         int nx, ny, nz;
         int total_cells;
-        cell *cells;
+        vector<cell> cells;
         double neighbordistance;
         void get_all_neighbors_normal();
         void process_neighbor(int, int);
-- 
2.43.0


From 1a231cc53a6d54df9e9c3cc36fc0410f41e9e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 02/59] fix: SANN read past the end of the candidate list when
 it was exhausted

---
 src/pyscal/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 044497c..4e500a4 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1175,6 +1175,9 @@ int System::get_all_neighbors_sann(double prefactor){
         while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
             //increase m
             m = m+1;
+            //the list is exhausted before a cutoff was found
+            if (m == maxneighs)
+                break;
 
             //here now we can add this to the list neighbors and process things
             int tj = atoms[ti].temp_neighbors[m].index;
-- 
2.43.0


From 158596fd2863ec05e948ba73c109abb3e1ca57ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 03/59] fix: SANN left the cutoff of atoms with three neighbors
 unset

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 4e500a4..3e1a9e4 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1170,6 +1170,7 @@ int System::get_all_neighbors_sann(double prefactor){
 
         //find cutoff
         dcut = summ/float(m-2);
+        atoms[ti].cutoff = dcut;
         maxneighs = atoms[ti].temp_neighbors.size();
 
         while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
-- 
2.43.0


From b03bb93f548762a786d6c4447e95df6481c231ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 04/59] fix: adaptive, number and SANN searches found nothing
 in left handed triclinic boxes

---
 src/pyscal/system.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 3e1a9e4..24dbad4 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -928,7 +928,8 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
         c1 = rot[0][2];
         c2 = rot[1][2];
         c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+        //the cell vectors may form a left handed set
+        boxvol = fabs(c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1));
     }
     else{
         boxvol = boxx*boxy*boxz;
@@ -1128,7 +1129,8 @@ int System::get_all_neighbors_sann(double prefactor){
         c1 = rot[0][2];
         c2 = rot[1][2];
         c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+        //the cell vectors may form a left handed set
+        boxvol = fabs(c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1));
     }
     else{
         boxvol = boxx*boxy*boxz;
@@ -1232,7 +1234,8 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
         c1 = rot[0][2];
         c2 = rot[1][2];
         c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+        //the cell vectors may form a left handed set
+        boxvol = fabs(c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1));
     }
     else{
         boxvol = boxx*boxy*boxz;
-- 
2.43.0


From 5f93c7735b65b8170f9b8f9ed9e7528b39ebb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 05/59] fix: adaptive search dropped neighbors beyond the guess
 radius without notice

---
 src/pyscal/system.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 24dbad4..673a36d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1261,6 +1261,36 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
         get_temp_neighbors_brute();
     }
 
+    //the candidates have to reach up to the adaptive cutoff of each atom: where they do not,
+    //look for them again up to the largest cutoff
+    double maxcut = 0;
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].temp_neighbors.size() < nlimit){
+            return 0;
+        }
+
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
+        summ = 0;
+        for(int i=0; i<nlimit; i++){
+            summ += atoms[ti].temp_neighbors[i].dist;
+        }
+        maxcut = max(maxcut, padding*(1.0/float(nlimit))*summ);
+    }
+
+    if (maxcut > neighbordistance){
+        neighbordistance = maxcut;
+        for (int ti=0; ti<nop; ti++){
+            atoms[ti].temp_neighbors.clear();
+        }
+        if (usecells){
+            get_temp_neighbors_cells();
+        }
+        else{
+            get_temp_neighbors_brute();
+        }
+    }
+
     //end of callstructural competition
     //subatoms would now be populated
     //now starts the main loop
-- 
2.43.0


From 2947dbc074f941179223b95afbe411af6970b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 06/59] fix: components with negative m were not the complex
 conjugates they should be

---
 src/pyscal/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 673a36d..ed170c9 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1445,7 +1445,7 @@ void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &im
     if (m < 0) {
         YLM(l, abs(m), theta, phi, realYLM, imgYLM);
         realYLM = pow(-1.0,m)*realYLM;
-        imgYLM = pow(-1.0,m)*imgYLM;
+        imgYLM = -pow(-1.0,m)*imgYLM;
     }
     else{
         YLM(l, m, theta, phi, realYLM, imgYLM);
-- 
2.43.0


From d9d5d8069ba89bc5fada56ae073126471510469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:53 +0000
Subject: [PATCH 07/59] fix: solid bonds were counted regardless of the
 threshold, and find_solids ignored right

---
 src/pyscal/core.py    | 1 +
 src/pyscal/system.cpp | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7a7f900..afe5f67 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -935,6 +935,7 @@ class System(pc.System):
 
         #Set the vlaue of q
         self.solidq = q
+        self.comparecriteria = 0 if right else 1
         #first calculate q
         self.ccalculate_q([q])
         #self.calculate_q(6)
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index ed170c9..6fcae85 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1763,11 +1763,12 @@ void System::calculate_frenkel_numbers(){
 
             scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
             atoms[ti].sij[c] = scalar;
-            if (comparecriteria == 0)
+            if (comparecriteria == 0){
                 if (scalar > threshold) frenkelcons += 1;
-            else
+            }
+            else{
                 if (scalar < threshold) frenkelcons += 1;
-            
+            }
             atoms[ti].avq6q6 += scalar;
         }
 
-- 
2.43.0


From 81d2f6262a9901c453e340e3ccf5c1855198c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:53 +0000
Subject: [PATCH 08/59] fix: disorder compared atoms with the first atoms of
 the list instead of their neighbors

---
 src/pyscal/system.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 6fcae85..03c6de5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1644,6 +1644,7 @@ void System::calculate_disorder(){
     double realdotproduct,imgdotproduct;
     double connection;
     double dis;
+    int nj;
 
     for(int ti=0; ti<nop; ti++){
 
@@ -1665,21 +1666,22 @@ void System::calculate_disorder(){
     //now find cross terms
     for(int ti=0; ti<nop; ti++){
 
-        sumSquareti = 0.0;
-        sumSquaretj = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
         dis = 0;
 
         for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
+            nj = atoms[ti].neighbors[tj];
+            sumSquareti = 0.0;
+            sumSquaretj = 0.0;
+            realdotproduct = 0.0;
+            imgdotproduct = 0.0;
             for (int mi = 0;mi < 2*solidq+1 ;mi++){
                 sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
-                sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-                realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi];
-                imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
+                sumSquaretj += atoms[nj].realq[solidq-2][mi]*atoms[nj].realq[solidq-2][mi] + atoms[nj].imgq[solidq-2][mi] *atoms[nj].imgq[solidq-2][mi];
+                realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[nj].realq[solidq-2][mi];
+                imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[nj].imgq[solidq-2][mi];
             }
             connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
-            dis += (atoms[ti].sii + atoms[tj].sii - 2*connection);
+            dis += (atoms[ti].sii + atoms[nj].sii - 2*connection);
         }
         atoms[ti].disorder = dis/float(atoms[ti].n_neighbors);
 
-- 
2.43.0


From 6162f52df2ab12bbfb767b7608e0411ffce96890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:53 +0000
Subject: [PATCH 09/59] fix: conditions discarded the neighbors of ghost atoms

---
 src/pyscal/core.py | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index afe5f67..a478d1a 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -801,22 +801,13 @@ class System(pc.System):
                     raise RuntimeError("condition did not work")
             
             #now loop
-            atoms = self.atoms
-
             if isatomattr:
-                for atom in atoms:
-                    atom.condition = self.get_custom(atom, [condition])[0]
+                self._assign_condition([self.get_custom(atom, [condition])[0] for atom in self.atoms])
             else:
-                for atom in atoms:
-                    cval = condition(atom)
-                    atom.condition = cval
-            self.atoms = atoms
+                self._assign_condition([condition(atom) for atom in self.atoms])
 
         if clear_condition:
-            atoms = self.atoms
-            for atom in atoms:
-                atom.condition = 0
-            self.atoms = atoms
+            self._assign_condition([0 for atom in self.atoms])
 
         if not only_averaged:
             self.ccalculate_q(qq)
@@ -1040,17 +1031,11 @@ class System(pc.System):
                 raise RuntimeError("condition did not work")
         
         #now loop
-        atoms = self.atoms
-
         if isatomattr:
-            for atom in atoms:
-                atom.condition = self.get_custom(atom, [condition])[0]
+            self._assign_condition([self.get_custom(atom, [condition])[0] for atom in self.atoms])
         else:
-            for atom in atoms:
-                cval = condition(atom)
-                atom.condition = cval
-        
-        self.atoms = atoms
+            self._assign_condition([condition(atom) for atom in self.atoms])
+
         self.cfind_clusters_recursive(cutoff)
 
         #done!
@@ -1640,6 +1625,25 @@ class System(pc.System):
                     count += 1
             return vec/float(count)
 
+    def _assign_condition(self, values):
+        """
+        Assign `condition` to the atoms and to their ghosts, without losing the neighbors of ghosts
+
+        Parameters
+        ----------
+        values : list
+            value of condition for each atom
+
+        Returns
+        -------
+        None
+        """
+        atoms = self.get_all_atoms()
+        for count, atom in enumerate(atoms):
+            #ghosts are whole copies of the list of atoms
+            atom.condition = values[count % len(values)]
+        self.set_atoms(atoms)
+
     def get_custom(self, atom, customkeys):
         """
         Get a custom attribute from Atom
-- 
2.43.0


From 3e71b24fa035ebdbd747d4cde2460580c7d78d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:12 +0000
Subject: [PATCH 10/59] fix: clusters and surfaces ended at the boundaries of
 small boxes

---
 src/pyscal/system.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 03c6de5..7987752 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1844,7 +1844,8 @@ void System::harvest_cluster(const int ti, const int clusterindex){
     int neigh;
     for(int i=0; i<atoms[ti].n_neighbors; i++){
         neigh = atoms[ti].neighbors[i];
-        if (atoms[neigh].ghost) continue;
+        //ghosts are whole copies of the list of real atoms
+        if (atoms[neigh].ghost) neigh = neigh % real_nop;
         if(!atoms[neigh].condition) continue;
         if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
         if (atoms[neigh].belongsto==-1){
@@ -1924,8 +1925,9 @@ void System::get_largest_cluster_atoms(){
             if(atoms[ti].issolid == 1){
                 atoms[ti].issurface = 0;
                 for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
-                    if (atoms[atoms[ti].neighbors[tj]].ghost) continue;
-                    if(atoms[atoms[ti].neighbors[tj]].issolid == 0){
+                    int neigh = atoms[ti].neighbors[tj];
+                    if (atoms[neigh].ghost) neigh = neigh % real_nop;
+                    if(atoms[neigh].issolid == 0){
                         atoms[ti].issurface = 1;
                         break;
                     }
-- 
2.43.0


From 39aa79579161b63e50b6aba2a1f0252f8e26f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:12 +0000
Subject: [PATCH 11/59] fix: every atom belonged to the largest cluster when
 there was none

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7987752..720967a 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1899,6 +1899,7 @@ int System::largest_cluster(){
         }
 
         int max=0;
+        maxclusterid = 0;
         for (int ti= 0;ti<real_nop;ti++)
         {
             if (freq[ti]>max){
-- 
2.43.0


From 1d0c58580b01ababe333715d01467cbbaa7180a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:12 +0000
Subject: [PATCH 12/59] fix: a cutoff given for clustering was kept for later
 calls

---
 src/pyscal/system.cpp | 14 ++++----------
 src/pyscal/system.h   |  2 +-
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 720967a..42d015a 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1839,7 +1839,7 @@ void System::find_clusters(double clustercutoff){
 
 //we have to test with a recursive algorithm - to match the values that is presented
 //in Grisells code.
-void System::harvest_cluster(const int ti, const int clusterindex){
+void System::harvest_cluster(const int ti, const int clusterindex, const double clustercutoff){
 
     int neigh;
     for(int i=0; i<atoms[ti].n_neighbors; i++){
@@ -1847,22 +1847,16 @@ void System::harvest_cluster(const int ti, const int clusterindex){
         //ghosts are whole copies of the list of real atoms
         if (atoms[neigh].ghost) neigh = neigh % real_nop;
         if(!atoms[neigh].condition) continue;
-        if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
+        if(!(atoms[ti].neighbordist[i] <= (clustercutoff != 0 ? clustercutoff : atoms[ti].cutoff))) continue;
         if (atoms[neigh].belongsto==-1){
             atoms[neigh].belongsto = clusterindex;
-            harvest_cluster(neigh, clusterindex);
+            harvest_cluster(neigh, clusterindex, clustercutoff);
         }
     }
 }
 
 void System::find_clusters_recursive(double clustercutoff){
 
-  if (clustercutoff != 0){
-    for(int ti=0; ti<nop;ti++){
-        atoms[ti].cutoff = clustercutoff;
-    }
-  }
-
     int clusterindex;
     clusterindex = 0;
 
@@ -1877,7 +1871,7 @@ void System::find_clusters_recursive(double clustercutoff){
         if (atoms[ti].belongsto==-1){
             clusterindex += 1;
             atoms[ti].belongsto = clusterindex;
-            harvest_cluster(ti, clusterindex);
+            harvest_cluster(ti, clusterindex, clustercutoff);
         }
 
     }
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index abe0cef..2166f62 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -140,7 +140,7 @@ class System{
         int comparecriteria;
         void find_solid_atoms();
         void find_clusters(double);
-        void harvest_cluster(const int, const int);
+        void harvest_cluster(const int, const int, const double);
         void find_clusters_recursive(double);
         int largest_cluster();
         void set_nucsize_parameters(double,double,double);
-- 
2.43.0


From 15877013e4ffdc3ba0a3534515fb3509cc07ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:46 +0000
Subject: [PATCH 13/59] fix: set_atom overwrote the wrong atom where loc was
 not the position in the list

---
 src/pyscal/system.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 42d015a..c38f8b0 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -126,6 +126,8 @@ void System::set_atoms( vector<Atom> atomitos){
     int tl = 0;
 
     for(int i=0; i<nop; i++){
+        //the position in the list, set_atom relies on it
+        atoms[i].loc = i;
         if(atoms[i].ghost==0){
             tl++;
         }
@@ -219,6 +221,10 @@ void System::add_atoms(vector<Atom> atomitos){
     ghost_nop = ghost_nop + tg;
     real_nop = real_nop + tl;
     nop = nop + atomitos.size();
+
+    for(int i=0; i<nop; i++){
+        atoms[i].loc = i;
+    }
 }
 
 
-- 
2.43.0


From 8e8723b5e9ad484b04f738e9bbc1f2aecdce9dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:11 +0000
Subject: [PATCH 14/59] fix: atoms added to a small system had no periodic
 copies, and copies added to a system without were lost

---
 src/pyscal/core.py    |  6 +++++-
 src/pyscal/system.cpp | 10 ++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index a478d1a..ae9d842 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -163,7 +163,11 @@ class System(pc.System):
         -------
         None
         """
-        self.cadd_atoms(atoms)
+        if self.ntotal > self.natoms and not any(atom.ghost for atom in atoms):
+            #the new atoms need periodic copies, too
+            self.atoms = self.get_atoms() + list(atoms)
+        else:
+            self.cadd_atoms(atoms)
 
     def read_inputfile(self, filename, format="lammps-dump", compressed = False, customkeys=None):
         """
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index c38f8b0..b9341cc 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -173,14 +173,12 @@ void System::add_atoms(vector<Atom> atomitos){
     }
 
     //if there is are no ghosts in system and list, just add and forget
-    if(ghost_nop==0){
-        if(tg==0){
-            for (int i=0; i<atomitos.size(); i++){
-                atoms.emplace_back(atomitos[i]);
-            }            
+    if((ghost_nop==0) && (tg==0)){
+        for (int i=0; i<atomitos.size(); i++){
+            atoms.emplace_back(atomitos[i]);
         }
     }
-    else if (ghost_nop>0){
+    else{
         //now the atoms need to be reordered
         vector<Atom> real_atoms;
         vector<Atom> ghost_atoms;        
-- 
2.43.0


From e0dce1d01291f6bb0e805bc05307de6d3bdf963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:11 +0000
Subject: [PATCH 15/59] fix: set_atom left the periodic copies of a moved atom
 behind

---
 src/pyscal/system.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index b9341cc..efafd9d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -239,6 +239,15 @@ vector<Atom> System::get_all_atoms( ){
 Atom System::gatom(int i) { return atoms[i]; }
 void System::satom(Atom atom1) {
     int idd = atom1.loc;
+    if (idd < real_nop){
+        //ghosts are whole copies of the list of real atoms, they follow their original
+        for(int i=idd+real_nop; i<nop; i+=real_nop){
+            atoms[i].posx += atom1.posx - atoms[idd].posx;
+            atoms[i].posy += atom1.posy - atoms[idd].posy;
+            atoms[i].posz += atom1.posz - atoms[idd].posz;
+            atoms[i].type = atom1.type;
+        }
+    }
     atoms[idd] = atom1;
 }
 
-- 
2.43.0


From 6394af41b5453672c193150feb419a5d0b7bf260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:36 +0000
Subject: [PATCH 16/59] fix: a new box kept the triclinic cell, the scaling or
 the original of an earlier one, and tilts could cancel

---
 src/pyscal/core.py | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index ae9d842..e4f2d3a 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -109,19 +109,37 @@ class System(pc.System):
         """
         Box setter 
         """
+        self.actual_box = None
+        self._set_box(userbox)
+
+    def _set_box(self, userbox):
+        """
+        Assign the box used for finding distances
+
+        Parameters
+        ----------
+        userbox : list of lists of floats
+            the box vectors
+
+        Returns
+        -------
+        None
+        """
         #we should automatically check for triclinic cells here
         summ = 0
         for i in range(3):
-            box1 = np.array(userbox[i-1])
-            box2 = np.array(userbox[i])
-            summ += np.dot(box1, box2)/(np.linalg.norm(box1)*np.linalg.norm(box2))
+            box1 = np.array(userbox[i])
+            #all components apart from the diagonal ones
+            summ += (np.sum(np.abs(box1)) - np.abs(box1[i]))/np.linalg.norm(box1)
 
         #check if the summ is zero
-        if (np.abs(summ) > 1E-6):
+        if (summ > 1E-6):
             #this is a triclinic box
             rot = np.array(userbox).T
             rotinv = np.linalg.inv(rot)
             self.assign_triclinic_params(rot, rotinv)
+        else:
+            self.triclinic = 0
 
         self._box = userbox
 
@@ -149,6 +167,12 @@ class System(pc.System):
                 raise ValueError("Simulation box should be initialized before atoms")
             atoms = self.repeat((nx, nx, nx), atoms=atoms, ghost=True, scale_box=True)
 
+        elif not any(atom.ghost for atom in atoms):
+            #no copies are needed, the box should not stay scaled
+            self.ghosts_created = False
+            if self.actual_box is not None:
+                self.box = self.actual_box
+
         self.set_atoms(atoms)
 
     def add_atoms(self, atoms):
@@ -571,7 +595,7 @@ class System(pc.System):
             self.get_all_neighbors_voronoi()
 
             #replace box
-            self.box = backupbox
+            self._set_box(backupbox)
 
         self.neighbors_found = True
 
@@ -1931,8 +1955,8 @@ class System(pc.System):
             If True, assign the new atoms as ghost instead of actual atoms
         """
         
-        box = self.box        
-        self.actual_box = box.copy()
+        box = self.box
+        actual_box = box.copy()
 
         if atoms is None:
             atoms = self.atoms
@@ -1974,6 +1998,7 @@ class System(pc.System):
             box[2] = zs*np.array(box[2])
             self.box = box
         if ghost:
+            self.actual_box = actual_box
             self.ghosts_created = True
 
         completeatoms = atoms + newatoms
@@ -2030,7 +2055,8 @@ class System(pc.System):
 
 
         self.newbox = newbox
-        self.box = newbox
+        #distances are still those of the triclinic box
+        self._box = newbox
         #self.atoms = atoms
 
     def extract_cubic_box(self, repeat=(3,3,3)):
-- 
2.43.0


From b1e07c7f8a78b2d5ce2bc4f48e691fce38c6963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:12 +0000
Subject: [PATCH 17/59] fix: remap_atoms ignored tilts and distant boxes and
 dropped the periodic copies of small systems

---
 src/pyscal/core.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index e4f2d3a..4ff3c29 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2169,30 +2169,20 @@ class System(pc.System):
         self.box = box
         newatoms = []
 
+        boxinv = np.linalg.inv(np.array(box))
+
         for atom in atoms:
-            pos = atom.pos
-            if pos[0] < 0:
-                pos[0] = pos[0]+box[0][0]
-            elif pos[0] >= box[0][0]:
-                pos[0] = pos[0]-box[0][0]
-            if pos[1] < 0:
-                pos[1] = pos[1]+box[1][1]
-            elif pos[1] >= box[1][1]:
-                pos[1] = pos[1]-box[1][1]
-            if pos[2] < 0:
-                pos[2] = pos[2]+box[2][2]
-            elif pos[2] >= box[2][2]:
-                pos[2] = pos[2]-box[2][2]
-            atom.pos = pos
+            pos = np.array(atom.pos)
+            #number of box vectors by which the atom is outside
+            shift = np.floor(np.dot(pos, boxinv))
+            atom.pos = pos - np.dot(shift, np.array(box))
             
         if remove_atoms:
             temp = []
             for atom in atoms:
-                pos = atom.pos
-                if (0 <= pos[0] < box[0][0]):
-                    if (0 <= pos[1] < box[1][1]):
-                        if (0 <= pos[2] < box[2][2]):
-                            temp.append(atom)
+                frac = np.dot(np.array(atom.pos), boxinv)
+                if np.all(frac >= 0) and np.all(frac < 1):
+                    temp.append(atom)
             atoms = temp
         
         if remove_images:
@@ -2207,13 +2197,13 @@ class System(pc.System):
                 if count not in pairs:
                     newatoms.append(atom)
             if assign:
-                self.set_atoms(newatoms)
+                self.atoms = newatoms
                 return None
             else:
                 return newatoms
 
         if assign:
-            self.set_atoms(atoms)
+            self.atoms = atoms
             return None
         else:
             return atoms
-- 
2.43.0


From 87cf5b37107feb569ef852a880aef71de1dcd988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:41 +0000
Subject: [PATCH 18/59] fix: remap_atom moved atoms out of triclinic boxes

---
 src/pyscal/system.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index efafd9d..47d1230 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -613,13 +613,12 @@ vector<double> System::remap_atom(vector<double> pos){
         dz = az*boxz;
 
         //now check pbc
-        //nearest image
-        if (dx> boxx/2.0) {dx-=boxx;};
-        if (dx<-boxx/2.0) {dx+=boxx;};
-        if (dy> boxy/2.0) {dy-=boxy;};
-        if (dy<-boxy/2.0) {dy+=boxy;};
-        if (dz> boxz/2.0) {dz-=boxz;};
-        if (dz<-boxz/2.0) {dz+=boxz;};
+        if (dx < 0) dx+=boxx;
+        else if (dx >= boxx) dx-=boxx;
+        if (dy < 0) dy+=boxy;
+        else if (dy >= boxy) dy-=boxy;
+        if (dz < 0) dz+=boxz;
+        else if (dz >= boxz) dz-=boxz;
 
         //now divide by box vals - scale down the size
         dx = dx/boxx;
-- 
2.43.0


From 2fb6f6b963b6235384171d422b5092cfd9254cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:15 +0000
Subject: [PATCH 19/59] fix: extract_cubic_box left the system with the box of
 the repeated cell

---
 src/pyscal/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 4ff3c29..870f9a1 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2076,6 +2076,7 @@ class System(pc.System):
         atoms: list of Atom objects
             atoms in the cubic box
         """
+        box, actual_box = self._box, self.actual_box
         ratoms = self.repeat(repeat)
         anchor = ratoms[0]
 
@@ -2098,6 +2099,10 @@ class System(pc.System):
             hi = max(anchor.pos[count], minatom.pos[count])
             nb.append([lo, hi])
 
+        #the atoms of the system are not repeated, and neither is its box
+        self._set_box(box)
+        self.actual_box = actual_box
+
         #collect atoms
         collectedatoms = []
         for atom in ratoms:
-- 
2.43.0


From 34821f3c03f67fe975a09f8d712669a0ebc97a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 20/59] fix: repeat scaled the box handed out or kept by a
 small system in place

---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 870f9a1..b5a57ee 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1955,7 +1955,7 @@ class System(pc.System):
             If True, assign the new atoms as ghost instead of actual atoms
         """
         
-        box = self.box
+        box = self.box.copy()
         actual_box = box.copy()
 
         if atoms is None:
-- 
2.43.0


From 9dfc1b240b229d770398c85f9de210e9b661ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:03 +0000
Subject: [PATCH 21/59] fix: remap_atoms without assigning left small systems
 with a box of the wrong size

---
 src/pyscal/core.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index b5a57ee..5975295 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2171,6 +2171,7 @@ class System(pc.System):
         """
         box = self.box
         atoms = self.atoms
+        innerbox, actual_box = self._box, self.actual_box
         self.box = box
         newatoms = []
 
@@ -2201,17 +2202,17 @@ class System(pc.System):
             for count, atom in enumerate(atoms):
                 if count not in pairs:
                     newatoms.append(atom)
-            if assign:
-                self.atoms = newatoms
-                return None
-            else:
-                return newatoms
+        else:
+            newatoms = atoms
 
         if assign:
-            self.atoms = atoms
+            self.atoms = newatoms
             return None
         else:
-            return atoms
+            #the atoms of the system, and so its box, stay as they were
+            self._set_box(innerbox)
+            self.actual_box = actual_box
+            return newatoms
 
 
 
-- 
2.43.0


From e88a5a8221fdf0249a2702c38fd72418c0751f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:57 +0000
Subject: [PATCH 22/59] fix: CNA mixed in neighbors of earlier calculations

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 47d1230..8679ed0 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2501,6 +2501,7 @@ vector<int> System::calculate_cna(int method){
     
     //first get lump neighbors
     //neighbor method is same
+    reset_all_neighbors();
     get_all_neighbors_bynumber(3, 14, 0);
 
     //first we start by checking for 12 CN 
-- 
2.43.0


From e4ee5445ff9b388e1808f098649995ea0bc7a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:57 +0000
Subject: [PATCH 23/59] fix: CNA and centrosymmetry read past the end of the
 list of atoms with few neighbors

---
 src/pyscal/system.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 8679ed0..9af5ea0 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -964,12 +964,13 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
         get_temp_neighbors_brute();
     }
     for (int ti=0; ti<nop; ti++){
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
         if (atoms[ti].temp_neighbors.size() < nns){
-            return 0;
+            finished = 0;
+            continue;
         }
 
-        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
-
         if(assign == 1){
             //assign the neighbors
             for(int i=0; i<nns; i++){
@@ -977,8 +978,6 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
                 process_neighbor(ti, tj);
             }
         }
-
-        finished = 1;            
     }
 
 
@@ -2145,6 +2144,8 @@ void System::get_cna_neighbors(int style){
 
     for (int ti=0; ti<nop; ti++){
         atoms[ti].cutoff = factor*lattice_constant;
+        //those with less neighbors do not have a known structure
+        if (atoms[ti].temp_neighbors.size() < ncount) continue;
         for(int i=0 ; i<ncount; i++){
             int tj = atoms[ti].temp_neighbors[i].index;
             //dist = atoms[ti].temp_neighbors[i].dist;
@@ -2641,7 +2642,9 @@ void System::calculate_centrosymmetry_atom(int ti, int nmax){
 void System::calculate_centrosymmetry(int nmax){
 
     reset_all_neighbors();
-    get_all_neighbors_bynumber(3, nmax, 1);
+    if (get_all_neighbors_bynumber(3, nmax, 1) == 0){
+        throw runtime_error("Could not find enough neighbors");
+    }
 
     //now loop over atoms and call
     for(int ti=0; ti<nop; ti++){
-- 
2.43.0


From dced6b37f0690195c696fb3988114b11c903dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:16 +0000
Subject: [PATCH 24/59] fix: entropy was undefined where no neighbors
 contribute to g(r)

---
 src/pyscal/atom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index f2eb90d..75ea62b 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -420,6 +420,8 @@ double Atom::gmr(double r)
 double Atom::entropy_integrand(double r)
 {
         double g = gmr(r);
+        //g*log(g) vanishes with g
+        if (g == 0) return r*r;
         return ((g*log(g)-g +1.00)*r*r);
 }
 
-- 
2.43.0


From 6055a1347de421c93fdf878f0112f9b577933b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:16 +0000
Subject: [PATCH 25/59] fix: entropy used the local density of the first atom
 for all atoms

---
 src/pyscal/system.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9af5ea0..71d588f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2589,9 +2589,11 @@ void System::entropy(double sigma, double rho, double rstart, double rstop, doub
         
         atoms[i].sigma = sigma;
         if (rho == 0){
-            rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+            atoms[i].rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+        }
+        else{
+            atoms[i].rho = rho;
         }
-        atoms[i].rho = rho;
         atoms[i].rstart = rstart;
         atoms[i].rstop = rstop;
         atoms[i].h = h;
-- 
2.43.0


From 08a60a64a543db0ba890f24a61b1440c1c07400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:16 +0000
Subject: [PATCH 26/59] fix: switching function of the entropy was undefined at
 its cutoff

---
 src/pyscal/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 71d588f..7c52e03 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2545,6 +2545,9 @@ vector<int> System::calculate_cna(int method){
 //Methods for entropy
 double System::switching_fn(double rij, double ra, int M, int N){
 
+    //limit of the function
+    if (rij == ra) return double(N)/double(M);
+
     double num = 1.0 - pow((rij/ra), N);
     double denum = 1.0 - pow((rij/ra), M);
     return num/denum;
-- 
2.43.0


From 4ca568ad643df788a4bdefdbc38f71b4c0202165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:16 +0000
Subject: [PATCH 27/59] fix: entropy used a negative density in left handed
 boxes

---
 src/pyscal/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 5975295..dcd774e 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1784,7 +1784,8 @@ class System(pc.System):
 
         #calculate rho
         box = self.box
-        vol = np.dot(np.cross(box[0], box[1]), box[2])
+        #the box vectors may form a left handed set
+        vol = np.abs(np.dot(np.cross(box[0], box[1]), box[2]))
         if local:
             rho = 0
         else:
-- 
2.43.0


From 9f1a7c203f5247a83c0f7761d13ddb36c60fa3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 28/59] fix: local entropy of atoms without neighbors was
 undefined

---
 src/pyscal/atom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 75ea62b..b09df6c 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -413,6 +413,8 @@ double Atom::gmr(double r)
                 g+=exp((-1.00*r2)/(2.00*sigma2));
         }
 
+        //the density, and with it the factor, may vanish as well
+        if (g == 0) return 0.00;
         return factor*g;
 }
 
-- 
2.43.0


From dd96102bb5e176b276073813542f5cfebdd90359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:58 +0000
Subject: [PATCH 29/59] fix: the cutoff of atoms without neighbors was not set

---
 src/pyscal/system.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7c52e03..15d6ff4 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -680,6 +680,11 @@ void System::get_all_neighbors_cells(){
     set_up_cells();
     int maincell, subcell;
 
+    //also for atoms without neighbors
+    for (int i=0; i<nop; i++){
+        atoms[i].cutoff = neighbordistance;
+    }
+
     //now loop to find distance
     for(int i=0; i<total_cells; i++){
         //now go over the neighbor cells
@@ -756,6 +761,11 @@ void System::get_all_neighbors_normal(){
     double diffx,diffy,diffz;
     double r,theta,phi;
 
+    //also for atoms without neighbors
+    for (int i=0; i<nop; i++){
+        atoms[i].cutoff = neighbordistance;
+    }
+
     for (int ti=0; ti<nop; ti++){
         for (int tj=ti; tj<nop; tj++){
             if(ti==tj) { continue; }
-- 
2.43.0


From 3a331eb7a59be3738144f33ed793edf89c2c57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:24 +0000
Subject: [PATCH 30/59] fix: Voronoi cells in triclinic boxes were those of
 another arrangement of the atoms

---
 src/pyscal/core.py    | 13 -------
 src/pyscal/system.cpp | 83 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 66 insertions(+), 30 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index dcd774e..3a59617 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -582,21 +582,8 @@ class System(pc.System):
         elif method == 'voronoi':
             
             self.voroexp = int(voroexp)
-
-            #copy the simulation cell
-            backupbox = self._box.copy()
-            if self.triclinic:
-                if not self.ghosts_created:
-                    atoms  = self.get_atoms()
-                    atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
-                    self.set_atoms(atoms)
-                    self.embed_in_cubic_box()
-            #self.embed_in_cubic_box()
             self.get_all_neighbors_voronoi()
 
-            #replace box
-            self._set_box(backupbox)
-
         self.neighbors_found = True
 
     def find_diamond_neighbors(self):
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 15d6ff4..5c81c99 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1985,26 +1985,27 @@ void System::get_all_neighbors_voronoi(){
     double weightsum;
     vector <double> pos;
 
-    //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
-    pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
-    for(int i=0; i<nop; i++){
-        pos = atoms[i].gx();
-        pos = remap_atom(pos);
-        pcon.put(i, pos[0], pos[1], pos[2]);
-    }
-    pcon.guess_optimal(tnx,tny,tnz);
-    //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
-    container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
-    pcon.setup(con);
-
-    c_loop_all cl(con);
-    if (cl.start()) do if(con.compute_cell(c,cl)) {
-            ti=cl.pid();
+    //the cell of a triclinic box with its first vector along x and the second in the xy plane
+    double lx = 0, xy = 0, ly = 0, xz = 0, yz = 0, lz = 0;
+
+    //take over the results for the cell of an atom
+    auto assign_cell = [&](int ti){
             c.face_areas(facearea);
             c.neighbors(neigh);
             c.face_orders(f_vert);
             c.face_vertices(vert_nos);
-            c.vertices(x,y,z,v);
+            c.vertices(v);
+            if (triclinic == 1){
+                //turn them back
+                for (int vi=0; vi+2<int(v.size()); vi+=3){
+                    double fz = v[vi+2]/lz;
+                    double fy = (v[vi+1] - fz*yz)/ly;
+                    double fx = (v[vi] - fy*xy - fz*xz)/lx;
+                    for (int k=0; k<3; k++){
+                        v[vi+k] = rot[k][0]*fx + rot[k][1]*fy + rot[k][2]*fz;
+                    }
+                }
+            }
             c.face_perimeters(faceperimeters);
 
             vol = c.volume();
@@ -2072,8 +2073,56 @@ void System::get_all_neighbors_voronoi(){
                 atoms[ti].n_theta[tj] = theta;
 
             }
+    };
 
-    } while (cl.inc());
+    if (triclinic == 1){
+        double aa = 0, ab = 0, ac = 0, bb = 0, bc = 0, cc = 0;
+        for (int k=0; k<3; k++){
+            aa += rot[k][0]*rot[k][0];
+            ab += rot[k][0]*rot[k][1];
+            ac += rot[k][0]*rot[k][2];
+            bb += rot[k][1]*rot[k][1];
+            bc += rot[k][1]*rot[k][2];
+            cc += rot[k][2]*rot[k][2];
+        }
+        lx = sqrt(aa);
+        xy = ab/lx;
+        ly = sqrt(bb - xy*xy);
+        xz = ac/lx;
+        yz = (bc - xy*xz)/ly;
+        lz = sqrt(cc - xz*xz - yz*yz);
+
+        //around five atoms per block
+        double block = cbrt(5*lx*ly*lz/nop);
+        container_periodic con(lx, xy, ly, xz, yz, lz, int(lx/block)+1, int(ly/block)+1, int(lz/block)+1, 8);
+        for(int i=0; i<nop; i++){
+            pos = atoms[i].gx();
+            double f[3];
+            for (int k=0; k<3; k++){
+                f[k] = rotinv[k][0]*pos[0] + rotinv[k][1]*pos[1] + rotinv[k][2]*pos[2];
+                f[k] -= floor(f[k]);
+            }
+            con.put(i, f[0]*lx + f[1]*xy + f[2]*xz, f[1]*ly + f[2]*yz, f[2]*lz);
+        }
+        c_loop_all_periodic cl(con);
+        if (cl.start()) do if(con.compute_cell(c,cl)) assign_cell(cl.pid()); while (cl.inc());
+    }
+    else{
+        //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
+        pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
+        for(int i=0; i<nop; i++){
+            pos = atoms[i].gx();
+            pos = remap_atom(pos);
+            pcon.put(i, pos[0], pos[1], pos[2]);
+        }
+        pcon.guess_optimal(tnx,tny,tnz);
+        //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
+        container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
+        pcon.setup(con);
+
+        c_loop_all cl(con);
+        if (cl.start()) do if(con.compute_cell(c,cl)) assign_cell(cl.pid()); while (cl.inc());
+    }
 
 
     //now calculate the averged volume
-- 
2.43.0


From e9a5b1c8b3ea4ca97fe333f5edd7478defac5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:24 +0000
Subject: [PATCH 31/59] fix: repeated Voronoi searches added up vertex
 positions

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 5c81c99..9b2ad61 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2023,6 +2023,7 @@ void System::get_all_neighbors_voronoi(){
             //assign to nvector
             atoms[ti].volume = vol;
             atoms[ti].vertex_vectors = v;
+            atoms[ti].vertex_positions.clear();
             atoms[ti].vertex_numbers = vert_nos;
             atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
             
-- 
2.43.0


From bf8b6904e17cbab456ca8893b560b1f6795496d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:24 +0000
Subject: [PATCH 32/59] fix: filters of Voronoi neighbors looked at the types
 of the first atoms and left gaps in the lists

---
 src/pyscal/system.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9b2ad61..634bae1 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2024,7 +2024,6 @@ void System::get_all_neighbors_voronoi(){
             atoms[ti].volume = vol;
             atoms[ti].vertex_vectors = v;
             atoms[ti].vertex_positions.clear();
-            atoms[ti].vertex_numbers = vert_nos;
             atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
             
             //clean up and add vertex positions
@@ -2048,30 +2047,38 @@ void System::get_all_neighbors_voronoi(){
             //for (int i=0; i<facearea.size(); i++){
             //    weightsum += facearea[i];
             //}
+            atoms[ti].vertex_numbers.clear();
+            int st = 0;
             for (int tj=0; tj<neigh.size(); tj++){
+                //each face has the number of its vertices, and then the vertices
+                int face = st;
+                st += f_vert[tj] + 1;
 
                 //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
                     continue;
                 }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[tj]].type)){
                     continue;
                 }
-                atoms[ti].neighbors[tj] = neigh[tj];
+                //entries of all lists are those of the faces kept
+                int nn = atoms[ti].n_neighbors;
+                atoms[ti].vertex_numbers.insert(atoms[ti].vertex_numbers.end(), vert_nos.begin()+face, vert_nos.begin()+st);
+                atoms[ti].neighbors[nn] = neigh[tj];
                 atoms[ti].n_neighbors += 1;
                 d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
-                atoms[ti].neighbordist[tj] = d;
+                atoms[ti].neighbordist[nn] = d;
                 //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[tj] = pow(facearea[tj], alpha)/weightsum;
-                atoms[ti].facevertices[tj] = f_vert[tj];
-                atoms[ti].faceperimeters[tj] = faceperimeters[tj];
-                atoms[ti].n_diffx[tj] = diffx;
-                atoms[ti].n_diffy[tj] = diffy;
-                atoms[ti].n_diffz[tj] = diffz;
+                atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
+                atoms[ti].facevertices[nn] = f_vert[tj];
+                atoms[ti].faceperimeters[nn] = faceperimeters[tj];
+                atoms[ti].n_diffx[nn] = diffx;
+                atoms[ti].n_diffy[nn] = diffy;
+                atoms[ti].n_diffz[nn] = diffz;
                 convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[tj] = r;
-                atoms[ti].n_phi[tj] = phi;
-                atoms[ti].n_theta[tj] = theta;
+                atoms[ti].n_r[nn] = r;
+                atoms[ti].n_phi[nn] = phi;
+                atoms[ti].n_theta[nn] = theta;
 
             }
     };
-- 
2.43.0


From b0d722d23691a4806f06b87f4d5ad6cac6757ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:59 +0000
Subject: [PATCH 33/59] fix: values calculated after the neighbors discarded
 the neighbors of ghost atoms

---
 src/pyscal/core.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 3a59617..bad0cf7 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -296,6 +296,22 @@ class System(pc.System):
         self.cset_atom(atom)
 
 
+    def _update_atoms(self, atoms):
+        """
+        Put atoms back after modification of their values, the ghosts and their neighbors stay
+
+        Parameters
+        ----------
+        atoms : list of Atom
+            atoms that are to be replaced
+
+        Returns
+        -------
+        None
+        """
+        for atom in atoms:
+            self.set_atom(atom)
+
     def calculate_rdf(self, histobins=100, histomin=0.0, histomax=None):
         """
         Calculate the radial distribution function.
@@ -726,7 +742,7 @@ class System(pc.System):
 
             atom.edge_lengths = edge_lengths
             atom.vorovector = vorovector
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
 
     def calculate_q(self, q, averaged = False, only_averaged=False, condition=None, clear_condition=False):
@@ -1164,7 +1180,7 @@ class System(pc.System):
                 costhetasum += (costheta +(1./3.))**2
             atom.angular = costhetasum
 
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     def calculate_chiparams(self, angles=False):
         """
@@ -1231,7 +1247,7 @@ class System(pc.System):
             atom.chiparams = chivector[0]
             if angles:
                 atom.custom['cosines'] = costhetas
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     
     def calculate_cna(self, lattice_constant=None):
@@ -1924,7 +1940,7 @@ class System(pc.System):
             neteng = np.sum([atoms[x].energy for x in atom.neighbors])
             atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
 
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
 
     def repeat(self, reps, atoms=None, ghost=False, scale_box=True):
-- 
2.43.0


From 0303bd75776e031d78d6f7fe6151042b55388c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:59 +0000
Subject: [PATCH 34/59] fix: angular criteria of small systems looked up ghost
 neighbors among the real atoms

---
 src/pyscal/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index bad0cf7..b21a3e1 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1150,6 +1150,8 @@ class System(pc.System):
         """
 
         atoms = self.atoms
+        #neighbors can be ghosts
+        allatoms = self.get_all_atoms()
 
         for atom in atoms:
             dists = []
@@ -1159,7 +1161,7 @@ class System(pc.System):
             neighs = atom.neighbors
 
             for neigh in neighs:
-                dist, vectors = self.get_distance(atom, atoms[neigh], vector=True)
+                dist, vectors = self.get_distance(atom, allatoms[neigh], vector=True)
                 dists.append(dist)
                 distneighs.append(neigh)
                 distvectors.append(vectors)
-- 
2.43.0


From c642223bd02a8d066c6a3ccc891dc47707ec7238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:33 +0000
Subject: [PATCH 35/59] fix: pairwise short range order took concentrations of
 other types if type numbers were not 1,2,3...

---
 src/pyscal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index b21a3e1..6bc7a41 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1608,8 +1608,8 @@ class System(pc.System):
         if not compare_type in types[0]:
             raise ValueError("Compare atom type is invalid")
     
-        mref  = types[1][reference_type-1]/float(np.sum(types[1]))
-        mcomp = types[1][compare_type-1]/float(np.sum(types[1]))
+        mref  = types[1][types[0]==reference_type][0]/float(np.sum(types[1]))
+        mcomp = types[1][types[0]==compare_type][0]/float(np.sum(types[1]))
 
         for atom in atoms:
             if atom.type == reference_type:
-- 
2.43.0


From f7d0731c236efc49065b00c2decf1ef5506239f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:33 +0000
Subject: [PATCH 36/59] fix: short range order of one shell was repeated as
 value of the second shell

---
 src/pyscal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 6bc7a41..ef1c9b5 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1534,7 +1534,7 @@ class System(pc.System):
         self.atoms = atoms
         #now if avg is reqd, find it
         if average:
-            vec = np.zeros(2)
+            vec = np.zeros(shells)
             count = 0
             for atom in atoms:
                 if atom.type == reference_type:
@@ -1650,7 +1650,7 @@ class System(pc.System):
         self.atoms = atoms
         #now if avg is reqd, find it
         if average:
-            vec = np.zeros(2)
+            vec = np.zeros(shells)
             count = 0
             for atom in atoms:
                 if atom.type == reference_type:
-- 
2.43.0


From 3880a3f02c047b0094cb39ee289e9c595dad1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:18 +0000
Subject: [PATCH 37/59] fix: radial distribution function of small systems
 counted ghosts without normalising for them

---
 src/pyscal/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index ef1c9b5..9f351cc 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -346,9 +346,10 @@ class System(pc.System):
         r = bin_edges[:-1]
 
         #get box density
-        boxvecs = self.box
+        #distances include those of ghosts, for which the box is scaled
+        boxvecs = self._box
         vol = np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2])
-        natoms = self.nop
+        natoms = self.ntotal
         rho = int(natoms*(natoms-1)*0.5)/vol
 
         shell_vols = (4./3.)*np.pi*((r+edgewidth)**3 - r**3)
-- 
2.43.0


From cd3d0aa99525a3e3df495cc9f6fdd7276a01f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:18 +0000
Subject: [PATCH 38/59] fix: radial distribution function was negative for left
 handed boxes

---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 9f351cc..3d7093b 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -348,7 +348,7 @@ class System(pc.System):
         #get box density
         #distances include those of ghosts, for which the box is scaled
         boxvecs = self._box
-        vol = np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2])
+        vol = np.abs(np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2]))
         natoms = self.ntotal
         rho = int(natoms*(natoms-1)*0.5)/vol
 
-- 
2.43.0


From 280e3b73d49a0f9a7e351b214f3798d269ea41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:59 +0000
Subject: [PATCH 39/59] fix: Voronoi vector took weights for face areas if the
 exponent of weights was not 1

---
 src/pyscal/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 3d7093b..f3f10a2 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -718,12 +718,18 @@ class System(pc.System):
                 edge_lengths.append(dummy_edge_lengths)
                 st += (vno+1)
 
+            #share of each face, the weights are powers of the face areas
+            areas = atom.neighbor_weights
+            if self.voroexp != 1:
+                areas = np.array(areas)**(1.0/self.voroexp)
+                areas = areas/np.sum(areas)
+
             #now all the edge lengths are saved
             for c, ed in enumerate(edge_lengths):
                 #normalise the edge lengths
                 norm = (ed/np.sum(ed))
                 #apply face area cutoff
-                if (atom.neighbor_weights[c] > area_cutoff):
+                if (areas[c] > area_cutoff):
                     #check for edge length cutoff
                     edgecount = len([cc for cc,x in enumerate(norm) if x > edge_cutoff])
                     refined_edges.append(edgecount)
-- 
2.43.0


From c703fee7bb7b1f7a910c8b1625a0f3b6ec75af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:58 +0000
Subject: [PATCH 40/59] fix: q values of Voronoi neighbors were not normalised
 if a condition or filter left neighbors out

---
 src/pyscal/system.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 634bae1..3f4af92 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1557,11 +1557,9 @@ void System::calculate_q(vector <int> qs){
                     weightsum += atoms[ti].neighborweight[ci];
                 }
 
-            //the weights are not normalised,
-            if(!voronoiused){
-                realti = realti/float(weightsum);
-                imgti = imgti/float(weightsum);
-            }
+            //the weights of the neighbors that take part are not normalised,
+            realti = realti/float(weightsum);
+            imgti = imgti/float(weightsum);
 
 
             atoms[ti].realq[q-2][mi+q] = realti;
-- 
2.43.0


From 343d46c8978c3fd6464bff526fbd16f85d24e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:20 +0000
Subject: [PATCH 41/59] fix: triclinic boxes were written to dump files as
 orthogonal boxes

---
 src/pyscal/formats/lammps.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 970c78c..9c4d7e7 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -249,12 +249,27 @@ def write_snap(sys, outfile, compressed = False,
     if customkeys == None:
         customkeys = []
 
-    box = sys.box
+    box = np.array(sys.box)
     boxx = np.sqrt(np.sum(np.array(box[0])**2))
     boxy = np.sqrt(np.sum(np.array(box[1])**2))
     boxz = np.sqrt(np.sum(np.array(box[2])**2))
 
     atoms = sys.atoms
+    positions = [atom.pos for atom in atoms]
+
+    #boxes which are not orthogonal along the axes are written in the restricted
+    #triclinic form, the first vector along x and the second in the xy plane
+    triclinic = any(box[i][j] != 0 for i in range(3) for j in range(3) if i != j)
+    if triclinic:
+        xy = np.dot(box[1], box[0])/boxx
+        xz = np.dot(box[2], box[0])/boxx
+        newy = np.sqrt(boxy**2 - xy**2)
+        yz = (np.dot(box[1], box[2]) - xy*xz)/newy
+        newz = np.sqrt(boxz**2 - xz**2 - yz**2)
+        boxy, boxz = newy, newz
+        newbox = np.array([[boxx, 0, 0], [xy, boxy, 0], [xz, yz, boxz]])
+        inv = np.linalg.inv(box)
+        positions = [np.dot(np.dot(pos, inv), newbox) for pos in positions]
 
     if len(customkeys) > 0:
         if customvals is None:
@@ -284,10 +299,16 @@ def write_snap(sys, outfile, compressed = False,
     dump.write("%d\n" % timestep)
     dump.write("ITEM: NUMBER OF ATOMS\n")
     dump.write("%d\n" % len(atoms))
-    dump.write("ITEM: BOX BOUNDS\n")
-    dump.write("%f %f\n" % (0, boxx))
-    dump.write("%f %f\n" % (0, boxy))
-    dump.write("%f %f\n" % (0, boxz))
+    if triclinic:
+        dump.write("ITEM: BOX BOUNDS xy xz yz\n")
+        dump.write("%f %f %f\n" % (min(0, xy, xz, xy+xz), boxx + max(0, xy, xz, xy+xz), xy))
+        dump.write("%f %f %f\n" % (min(0, yz), boxy + max(0, yz), xz))
+        dump.write("%f %f %f\n" % (0, boxz, yz))
+    else:
+        dump.write("ITEM: BOX BOUNDS\n")
+        dump.write("%f %f\n" % (0, boxx))
+        dump.write("%f %f\n" % (0, boxy))
+        dump.write("%f %f\n" % (0, boxz))
 
     #now write header
     if len(customkeys) > 0:
@@ -299,7 +320,7 @@ def write_snap(sys, outfile, compressed = False,
     dump.write(title_str)
 
     for cc, atom in enumerate(atoms):
-        pos = atom.pos
+        pos = positions[cc]
         if len(customkeys) > 0:
             cval_atom = " ".join(np.array(list(cvals[cc])).astype(str))
             atomline = ("%d %d %f %f %f %s\n")%(atom.id, atom.type, pos[0], pos[1], pos[2], cval_atom)
-- 
2.43.0


From 8c2e1aa9eadbd72b35fa8c32ccc87d98babad539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:51 +0000
Subject: [PATCH 42/59] fix: descending iteration over a trajectory started
 behind the last slice and left out the first

---
 src/pyscal/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 377436f..d37735e 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -379,7 +379,7 @@ class Trajectory:
                 yield self._yield(i, output)
         elif method == "descending":
             for i in range(n_slices):
-                yield self._yield(self.nblocks-i, output)
+                yield self._yield(self.nblocks-1-i, output)
         
         elif method == "random":
             slice_list = np.arange(0, self.nblocks, 1).astype(int)
-- 
2.43.0


From 834288d05a30e61da6bc987264b45b435d40209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:51 +0000
Subject: [PATCH 43/59] fix: adding time slices changed the slice on the left

---
 src/pyscal/trajectory.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index d37735e..bed384a 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -90,13 +90,10 @@ class Timeslice:
         """
         Add a method for summing
         """
-        for traj in ntraj.trajectories:
-            self.trajectories.append(traj)
-
-        for block in ntraj.blocklists:
-            self.blocklists.append(block)
-
-        return self
+        total = Timeslice(self.trajectory, self.blocklist)
+        total.trajectories = self.trajectories + ntraj.trajectories
+        total.blocklists = self.blocklists + ntraj.blocklists
+        return total
 
 
     def __radd__(self, ntraj):
-- 
2.43.0


From 6205b48292a3908d7314d5765164a20edcc80e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:51 +0000
Subject: [PATCH 44/59] fix: loading a slice with a single atom failed

---
 src/pyscal/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index bed384a..e33fea1 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -438,7 +438,7 @@ class Trajectory:
         """
         data = self.get_block(blockno)
         box =  np.loadtxt(data[5:8])
-        columns = np.loadtxt(data[9:])
+        columns = np.loadtxt(data[9:], ndmin=2)
         header = np.loadtxt(data[8:9], dtype=str)[2:]
         outdict = {}
         outdict["box"] = box
-- 
2.43.0


From 6a17d409959d70be67d6712a0e199e20b136f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:51 +0000
Subject: [PATCH 45/59] fix: time step and box type of loaded slices were lost
 when written

---
 src/pyscal/trajectory.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index e33fea1..b1d0a5d 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -482,12 +482,8 @@ class Trajectory:
         """
         dd = self.data[blockno]
 
-        data = []
-        data.append("ITEM: TIMESTEP\n")
-        data.append("".join([str(0), os.linesep]))
-        data.append("ITEM: NUMBER OF ATOMS\n")
-        data.append("".join([str(self.natoms), os.linesep]))
-        data.append("ITEM: BOX BOUNDS pp pp pp\n")
+        #time step, number of atoms and type of the box are those of the file
+        data = self.get_block(blockno)[:5]
         for b in dd["box"]:
             dstr = " ".join(b.astype(str))
             data.append("".join([dstr, os.linesep]))
-- 
2.43.0


From 425ec4b6a9d7bf6fb61e00bb97c346d22415c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:51 +0000
Subject: [PATCH 46/59] fix: reading and writing formats with the ase backend
 always failed

---
 src/pyscal/traj_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index c7f7abd..012c796 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -66,7 +66,7 @@ def read_file(filename, format="lammps-dump",
             #try to use ASE backend
             aseobject = read(filename, format=format)
             atoms, box = ptase.read_snap(aseobject)
-            warnings.info("Using ase backend to read file")
+            warnings.warn("Using ase backend to read file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
@@ -129,7 +129,7 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
         try:
             aseobject = ptase.convert_snap(sys, species=species)
             write(outfile, aseobject, format=format)
-            warnings.info("Using ase backend to write file")
+            warnings.warn("Using ase backend to write file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
-- 
2.43.0


From ccd7e37b5218bc2f7ede4b02a8ddcd51ea5f3c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 47/59] fix: to_dict of a time slice discarded data loaded and
 modified by the user

---
 src/pyscal/trajectory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index b1d0a5d..dc7ff8b 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -154,9 +154,12 @@ class Timeslice:
         data = []
         for count, traj in enumerate(self.trajectories):
             for x in self.blocklists[count]:
-                self.trajectories[count].load(x)
-                data.append(self.trajectories[count].data[x])
-                self.trajectories[count].unload(x)
+                if self.trajectories[count].loadlist[x]:
+                    data.append(self.trajectories[count].data[x])
+                else:
+                    self.trajectories[count].load(x)
+                    data.append(self.trajectories[count].data[x])
+                    self.trajectories[count].unload(x)
         return data
 
     def to_file(self, outfile, mode="w"):
-- 
2.43.0


From fdc69012001646afed34f939ed91ee96a46ad99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:23 +0000
Subject: [PATCH 48/59] fix: negative indices of trajectories with an
 incomplete last slice gave lines of two slices

---
 src/pyscal/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index dc7ff8b..08f8ea0 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -279,7 +279,7 @@ class Trajectory:
             timeslice = Timeslice(self, blocklist)
             return timeslice
         else:
-            blocklist = [blockno]
+            blocklist = [range(self.nblocks)[blockno]]
             timeslice = Timeslice(self, blocklist)
             return timeslice
 
-- 
2.43.0


From 80d5c3ab69aa00fc77e6ede6db7b80cf0bb329fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:57 +0000
Subject: [PATCH 49/59] fix: species given for one conversion to ase were kept
 for all later ones

---
 src/pyscal/formats/ase.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/formats/ase.py b/src/pyscal/formats/ase.py
index 2d7b358..29eb39e 100644
--- a/src/pyscal/formats/ase.py
+++ b/src/pyscal/formats/ase.py
@@ -105,16 +105,14 @@ def convert_snap(sys, species=None):
         unique_types = np.unique(types)
         if not (len(unique_types) == len(species)):
             raise ValueError("Length of species and number of types found in system are different. Maybe you specified \"Au\" instead of [\"Au\"]")
-        #now assign the species to custom
-        
-        for atom in atoms:
-            custom = atom.custom
-            custom['species'] = species[int(atom.type-1)]
+        #the atoms of the system stay as they are
+        symbols = [species[int(atom.type-1)] for atom in atoms]
         #we should also get the unique species key
         specieskey = "".join(species)
     else:
         #now if species are already there in custom
         #we can safely ignore any input
+        symbols = [atom.custom['species'] for atom in atoms]
         types = [atom.type for atom in atoms]
         unique_types = np.unique(types)
         #now we know how many types are there
@@ -136,8 +134,8 @@ def convert_snap(sys, species=None):
     
     #thats everything pretty much
     #now create ase Atom
-    for atom in atoms:
-        aseatom = Atom(atom.custom['species'], atom.pos)
+    for symbol, atom in zip(symbols, atoms):
+        aseatom = Atom(symbol, atom.pos)
         aseobject.append(aseatom)
     #done
     return aseobject
-- 
2.43.0


From 7de92eb2a2895521adf54b8c1754c93fb9b192e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:54 +0000
Subject: [PATCH 50/59] fix: calculate_energy ignored the mass

---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index f3f10a2..8ecc1ad 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1931,7 +1931,7 @@ class System(pc.System):
 
         indict = routines.get_energy_atom(outfile, species=species,
             pair_style=pair_style, pair_coeff=pair_coeff,
-            mass=1.0)
+            mass=mass)
 
         atoms = self.atoms
     
-- 
2.43.0


From 052768f16a96224adfb7e28526dfd7abf2873ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:54 +0000
Subject: [PATCH 51/59] fix: calculate_energy failed for a species given as a
 string, as is the default

---
 src/pyscal/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 8ecc1ad..557eedf 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1926,6 +1926,9 @@ class System(pc.System):
         are used for averaging. Otherwise neighbors are calculated on the fly
         with an adaptive cutoff method.
         """
+        if isinstance(species, str):
+            species = [species]
+
         outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
         aseobject = self.to_file(outfile, format='lammps-data', species=species)
 
-- 
2.43.0


From 22931d85d86385763ab9792127a0eabb5a2e6c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:54 +0000
Subject: [PATCH 52/59] fix: energies of small systems, or of those without
 neighbors, could not be averaged over neighbors

---
 src/pyscal/core.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 557eedf..6844051 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1936,11 +1936,6 @@ class System(pc.System):
             pair_style=pair_style, pair_coeff=pair_coeff,
             mass=mass)
 
-        atoms = self.atoms
-    
-        for atom in atoms:
-            atom.energy = indict[str(atom.id)]
-
         #clean up
         os.remove(outfile)
 
@@ -1948,8 +1943,14 @@ class System(pc.System):
             if not self.neighbors_found:
                 self.find_neighbors(method="cutoff", cutoff=0)
 
+        atoms = self.atoms
+    
+        for atom in atoms:
+            atom.energy = indict[str(atom.id)]
+
+        #neighbors can be ghosts, which are copies of the atoms in the same order
         for atom in atoms:
-            neteng = np.sum([atoms[x].energy for x in atom.neighbors])
+            neteng = np.sum([atoms[x % len(atoms)].energy for x in atom.neighbors])
             atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
 
         self._update_atoms(atoms)
-- 
2.43.0


From 56f3cb93e0b9b7e087324d3f63bd44b3f8334080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:54 +0000
Subject: [PATCH 53/59] fix: get_concentration returned numbers of atoms
 instead of concentrations

---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 6844051..5372b05 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2162,7 +2162,7 @@ class System(pc.System):
         types, typecounts = np.unique(typelist, return_counts=True)
         concdict = {}
         for c, t in enumerate(types):
-            concdict[str(t)] = typecounts[c]
+            concdict[str(t)] = typecounts[c]/len(typelist)
         return concdict
 
     def remap_atoms(self, remove_images=True, assign=True, 
-- 
2.43.0


From 323554b173dc7779dec0678f41bb21bb3d0f3b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:15 +0000
Subject: [PATCH 54/59] fix: atoms were refused if the components of the box
 sum up to zero

---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 5372b05..7e029a8 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -163,7 +163,7 @@ class System(pc.System):
             nx = int(needed_cells**(1/3))
             nx = int(np.ceil(nx/2))
 
-            if np.sum(self.box) == 0:
+            if not np.any(self.box):
                 raise ValueError("Simulation box should be initialized before atoms")
             atoms = self.repeat((nx, nx, nx), atoms=atoms, ghost=True, scale_box=True)
 
-- 
2.43.0


From cecdfe48b9a5524bca8b7dee6dd89db33c66c610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:31 +0000
Subject: [PATCH 55/59] fix: find_tetrahedral_voids failed if a neighbor was a
 periodic copy

---
 src/pyscal/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 3ccdf97..ea9aca9 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -145,8 +145,8 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
     for atom in atoms:
         if atom.vorovector[1] == 4:
             #first to prevent small cells we need to filter
-            neighs = np.unique(atom.neighbors)
-            dists = np.array([sys.get_distance(atom, atoms[x]) for x in neighs])
+            neighs, first = np.unique(atom.neighbors, return_index=True)
+            dists = np.array(atom.neighbor_distance)[first]
             mindist = dists[np.argsort(dists)][0]
             mindistcount = 0
             for i in range(len(dists)):
-- 
2.43.0


From 3a2ca922995405acd923aecbac7f3502a04b198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:31 +0000
Subject: [PATCH 56/59] fix: direct coordinates of tetrahedral voids assumed a
 box of lower and upper bounds

---
 src/pyscal/misc.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index ea9aca9..b406a89 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -134,10 +134,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
     pos = []
     types = []
 
-    box = sys.box
-    boxx = box[0][1] - box[0][0]
-    boxy = box[1][1] - box[1][0]
-    boxz = box[2][1] - box[2][0]
+    box = np.array(sys.box)
 
     if len(atoms) < 21:
         warnings.warn("Very less number of atoms, results maybe wrong. See https://github.com/srmnitc/pyscal/issues/63 ")
@@ -156,8 +153,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
             if mindistcount == 4:
                 volumes.append(atom.volume)
                 if direct_coordinates:
-                    p = atom.pos
-                    pos.append([p[0]/boxx, p[1]/boxy, p[2]/boxz])
+                    pos.append(list(np.dot(atom.pos, np.linalg.inv(box))))
                 else:
                     pos.append(atom.pos)
                 types.append(atom.type)
-- 
2.43.0


From 201c441898e60d98548f0c726a484adea38dbdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:31 +0000
Subject: [PATCH 57/59] fix: volumes and Voronoi fingerprints of
 compare_atomic_env were sorted independently of each other

---
 src/pyscal/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index b406a89..66b9fff 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -57,11 +57,11 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
             vors.append(" ".join(np.array(atom.vorovector).astype(str)))
     vols = np.array(vols)
     vols = np.round(vols, decimals=precision)
-    vvx, vvc = np.unique(vols, return_counts=True)
-    vrx, vrc = np.unique(vors, return_counts=True)
+    vvx, first, vvc = np.unique(vols, return_index=True, return_counts=True)
+    vrx = np.array([vors[x] for x in first])
 
     length_mismatch = False
-    if (len(vvx) != len(vrx)):
+    if any(vors[x] != vrx[list(vvx).index(vols[x])] for x in range(len(vols))):
         warnings.warn("Different voronoi polyhedra with same volume! Fingerprint wont be printed. Maybe change precision?")
         length_mismatch = True
 
-- 
2.43.0


From cfb51affa35caad862a57d921f925d1824f09954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:38 +0000
Subject: [PATCH 58/59] fix: calculate_solidneighbors used thresholds and q
 components that were never set, or those of earlier calls

---
 src/pyscal/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7e029a8..a0e8ac0 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1103,6 +1103,14 @@ class System(pc.System):
 
 
         """
+        if not self.neighbors_found:
+            raise RuntimeError("neighbors should be calculated before finding solid neighbors. Run System.find_neighbors.")
+
+        #whatever was used to find solids before
+        self.solidq = 6
+        self.comparecriteria = 0
+        self.ccalculate_q([6])
+        self.set_nucsize_parameters(7, 0.6, 0.6)
         self.calculate_frenkelnumbers()
 
 
-- 
2.43.0


From f5f36880d204db93738ec6c1cb7840ba7bc64b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:10 +0000
Subject: [PATCH 59/59] fix: the number of solid bonds of an atom was hidden
 behind an attribute of the same name

---
 src/pyscal/atom_binding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index b334cab..888e07e 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -417,7 +417,7 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
     .def_readwrite("common", &Atom::common, R"mydelimiter(
     )mydelimiter")
 
-    .def_readwrite("bonds", &Atom::bonds, R"mydelimiter(
+    .def_readwrite("common_bonds", &Atom::bonds, R"mydelimiter(
     )mydelimiter")
 
     //-------------------------------------------------------
-- 
2.43.0

